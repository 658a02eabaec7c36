"""Class declarations shared by the contracts.

An attribute that may be missing from the instance has `Absent` among its
types; reading it then runs the real class's __getattr__.
"""
from speclib import classdecl

LAT = [0.0, 0.5, -0.5, 1.0, -1.0, 37.5, 90.0, -90.0, 90.1, -90.1, 45.0,
       0.999, 100.0]
LON = [0.0, 0.5, -0.5, 1.0, -1.0, -122.25, 180.0, -180.0, 180.1, -180.1, 45.0,
       0.999, 200.0]

classdecl('Stop', 'transitfeed.stop.Stop', fields={
    'stop_id': 'Union[Absent,None,Str]',
    'stop_name': 'Union[Absent,None,Str]',
    'stop_lat': 'Union[Absent,None,Float,Str]',
    'stop_lon': 'Union[Absent,None,Float,Str]',
    'stop_desc': 'Union[Absent,None,Str]',
    'zone_id': 'Union[Absent,None,Str]',
    'stop_url': 'Union[Absent,None,Str]',
    'stop_code': 'Union[Absent,None,Str]',
    'location_type': 'Union[Absent,Int,Str]',
    'parent_station': 'Union[Absent,None,Str]',
    'stop_timezone': 'Union[Absent,None,Str]',
    'wheelchair_boarding': 'Union[Absent,None,Str]',
    '_schedule': 'Opt[Schedule]',
    '_migrated_entity': 'Union[Absent,Stop]',
}, pools={
    'stop_lat': [0.0, 0.5, -0.5, 1.0, -1.0, 37.5, 90.0, -90.0, 90.1, -90.1,
                 45.0, 0.999, 100.0, '0.5', '91', 'x', '', ' ', '1e1', '-90'],
    'stop_lon': [0.0, 0.5, -0.5, 1.0, -1.0, -122.25, 180.0, -180.0, 180.1,
                 -180.1, 45.0, 0.999, 200.0, '0.5', '181', 'x', '', ' ',
                 '1e1', '-180'],
    'location_type': [0, 1, 2, 3, 4, 5, -1, '0', '1', '2', '4', '5', 'x', ''],
    'stop_id': ['S1', 'S2', 'S3', '', ' ', None],
    'parent_station': ['S1', 'S2', 'S3', 'S9', '', ' ', None],
    'stop_name': ['Main', 'main', ' Main ', '', ' ', None, 'Other'],
    'stop_desc': ['Main', 'main', ' Main ', '', ' ', None, 'Desc'],
    'stop_url': ['http://a', 'x', '', ' ', None],
    'stop_timezone': ['America/Los_Angeles', 'x/y', '', ' ', None],
    'wheelchair_boarding': ['0', '1', '2', '3', '', ' ', 'x', None],
})

classdecl('Route', 'transitfeed.route.Route', fields={
    'route_id': 'Union[Absent,None,Str]',
    'route_short_name': 'Union[Absent,None,Str]',
    'route_long_name': 'Union[Absent,None,Str]',
    'route_type': 'Union[Absent,None,Int,Str]',
    'agency_id': 'Union[Absent,None,Str]',
    'route_desc': 'Union[Absent,None,Str]',
    'route_url': 'Union[Absent,None,Str]',
    'route_color': 'Union[Absent,None,Str]',
    'route_text_color': 'Union[Absent,None,Str]',
    'bikes_allowed': 'Union[Absent,None,Str]',
    '_schedule': 'Opt[Schedule]',
    '_trips': 'List[Trip]',
}, pools={
    'route_id': ['R1', 'R2', '', ' ', None],
    'route_short_name': ['12', 'Red', 'abcdef', 'abcdefg', '', ' ', None,
                         ' Red ', 'red'],
    'route_long_name': ['12', 'Red', 'red line', 'Red(x)', 'RED-x', 'Redx',
                        'Main St', '', ' ', None, ' red ', '12 Main',
                        'abcdef'],
    'route_desc': ['Red', 'Main St', '12', 'desc', '', None],
    'route_type': [0, 1, 2, 3, 4, 5, 6, 7, 8, -1, '0', '3', '7', '8', '-1',
                   'x', '', ' ', '03', None],
    'route_url': ['http://a', 'x', '', ' ', None],
    'route_color': ['000000', 'FFFFFF', 'ff0000', '00ff00', '0000ff',
                    'GGGGGG', '12345', '494949', '484848', '', None],
    'route_text_color': ['000000', 'FFFFFF', 'ff0000', '00ff00', '0000ff',
                         'GGGGGG', '1234567', '494949', '', None],
    'bikes_allowed': ['0', '1', '2', '3', '', ' ', 'x', None],
    'agency_id': ['A1', 'A2', 'A3', '', None],
})

classdecl('Transfer', 'transitfeed.transfer.Transfer', fields={
    'from_stop_id': 'Union[Absent,None,Str]',
    'to_stop_id': 'Union[Absent,None,Str]',
    'transfer_type': 'Union[Absent,None,Int,Str]',
    'min_transfer_time': 'Union[Absent,None,Int,Str]',
    '_schedule': 'Opt[Schedule]',
}, pools={
    'from_stop_id': ['S1', 'S2', 'S3', '', ' ', None],
    'to_stop_id': ['S1', 'S2', 'S3', '', ' ', None],
    'transfer_type': [0, 1, 2, 3, 4, -1, '2', '4', 'x', '', ' ', None],
    'min_transfer_time': [0, 1, -1, 60, 10799, 10800, 10801, 86399, 86400,
                          86401, 2, 1000, '10', 'x', '', ' ', None],
})

classdecl('Agency', 'transitfeed.agency.Agency', fields={
    'agency_id': 'Union[Absent,None,Str]',
    'agency_name': 'Union[Absent,None,Str]',
    'agency_url': 'Union[Absent,None,Str]',
    'agency_timezone': 'Union[Absent,None,Str]',
    'agency_lang': 'Union[Absent,None,Str]',
    'agency_phone': 'Union[Absent,None,Str]',
    'agency_fare_url': 'Union[Absent,None,Str]',
    'agency_email': 'Union[Absent,None,Str]',
    '_schedule': 'Opt[Schedule]',
    '_migrated_entity': 'Union[Absent,Agency]',
}, pools={
    'agency_id': ['A1', 'A2', '', ' ', None],
    'agency_timezone': ['America/Los_Angeles', 'x/y', '', ' ', None, 'UTC'],
    'agency_lang': ['en', 'EN', 'xx', '', ' ', None, 'de'],
    'agency_email': ['a@b.c', 'a@b', '', ' ', None],
})

classdecl('FeedInfo', 'transitfeed.feedinfo.FeedInfo', fields={
    'feed_publisher_name': 'Union[Absent,None,Str]',
    'feed_publisher_url': 'Union[Absent,None,Str]',
    'feed_lang': 'Union[Absent,None,Str]',
    'feed_start_date': 'Union[Absent,None,Str]',
    'feed_end_date': 'Union[Absent,None,Str]',
    'feed_version': 'Union[Absent,None,Str]',
    '_schedule': 'Opt[Schedule]',
}, pools={
    'feed_lang': ['en', 'EN', 'xx', '', ' ', None, 'de'],
    'feed_start_date': ['20090101', '20100101', '20091301', '', ' ', None],
    'feed_end_date': ['20090101', '20100101', '20091301', '', ' ', None],
})

classdecl('FareAttribute', 'transitfeed.fareattribute.FareAttribute', fields={
    'fare_id': 'Opt[Str]',
    'price': 'Union[None,Float,Str]',
    'currency_type': 'Opt[Str]',
    'payment_method': 'Union[None,Int,Str]',
    'transfers': 'Union[None,Int,Str]',
    'transfer_duration': 'Union[None,Int,Str]',
    'rules': 'List[FareRule]',
    '_schedule': 'Opt[Schedule]',
}, eq='call', pools={
    'fare_id': ['f1', 'f2', '', ' ', None],
    'price': [0.0, 1.0, -0.5, '1', 'x', '', None],
    'currency_type': ['USD', 'EUR', 'usd', 'XXZ', '', ' ', None],
    'payment_method': [0, 1, 2, -1, '0', 'x', '', None],
    'transfers': [0, 1, 2, 3, -1, '0', 'x', '', None],
    'transfer_duration': [0, 1, -1, 3600, 'x', '', '1', None],
})

classdecl('FareRule', 'transitfeed.farerule.FareRule', fields={
    'fare_id': 'Opt[Str]',
    'route_id': 'Opt[Str]',
    'origin_id': 'Opt[Str]',
    'destination_id': 'Opt[Str]',
    'contains_id': 'Opt[Str]',
    '_schedule': 'Opt[Schedule]',
}, eq='call', pools={
    'fare_id': ['f1', 'f2', '', ' ', None],
    'route_id': ['R1', 'R2', '', None],
    'origin_id': ['z1', 'z2', '', None],
    'destination_id': ['z1', 'z2', '', None],
    'contains_id': ['z1', 'z2', '', None],
})

classdecl('Frequency', 'transitfeed.frequency.Frequency', fields={
    'trip_id': 'Union[Absent,None,Str]',
    'start_time': 'Union[Absent,None,Int,Str]',
    'end_time': 'Union[Absent,None,Int,Str]',
    'headway_secs': 'Union[Absent,None,Int,Str]',
    'exact_times': 'Union[Absent,None,Int,Str]',
    '_schedule': 'Opt[Schedule]',
}, pools={
    'trip_id': ['T1', 'T2', 'T9'],
    'start_time': [0, 1, -1, 3600, 7200, '08:00:00', '00:00:00', '25:00:00',
                   'x', '', ' ', None, '08:60:00'],
    'end_time': [0, 1, -1, 3600, 7200, '09:00:00', '00:00:00', '26:00:00',
                 '08:00:00', 'x', '', ' ', None],
    'headway_secs': [0, 1, -1, 600, '600', '0', '-5', 'x', '', ' ', None],
    'exact_times': [0, 1, 2, -1, '0', '1', '2', 'x', '', ' ', None],
})

classdecl('Trip', 'transitfeed.trip.Trip', fields={
    'trip_id': 'Opt[Str]',
    'route_id': 'Opt[Str]',
    'service_id': 'Opt[Str]',
    'trip_headsign': 'Union[Absent,None,Str]',
    'trip_short_name': 'Union[Absent,None,Str]',
    'block_id': 'Union[Absent,None,Str]',
    'direction_id': 'Union[Absent,None,Str]',
    'shape_id': 'Union[Absent,None,Str]',
    'bikes_allowed': 'Union[Absent,None,Str]',
    'wheelchair_accessible': 'Union[Absent,None,Str]',
    '_schedule': 'Opt[Schedule]',
    '_headways': 'List[Tuple[Int,Int,Int,Int]]',
    '_pattern_id': 'Opt[Int]',
    '_stoptimes': 'List[StopTime]',
}, pools={
    'trip_id': ['T1', 'T2', '', ' ', None],
    'route_id': ['R1', 'R2', '', ' ', None],
    'service_id': ['W1', 'W2', '', ' ', None],
    'direction_id': ['0', '1', '2', '', None, 'x'],
    'block_id': ['B1', 'B2', '', ' ', None],
    'shape_id': ['SH1', 'SH2', '', None],
    'bikes_allowed': ['0', '1', '2', '3', '', ' ', 'x', None],
    'wheelchair_accessible': ['0', '1', '2', '3', '', ' ', 'x', None],
})

classdecl('StopTime', 'transitfeed.stoptime.StopTime', fields={
    'arrival_secs': 'Opt[Int]',
    'departure_secs': 'Opt[Int]',
    'stop': 'Stop',
    'stop_headsign': 'Opt[Str]',
    'pickup_type': 'Opt[Int]',
    'drop_off_type': 'Opt[Int]',
    'shape_dist_traveled': 'Opt[Float]',
    'stop_sequence': 'Union[Absent,Int]',
    'timepoint': 'Opt[Int]',
}, eq='id', pools={
    'arrival_secs': [0, 60, 300, 600, 3600, 86400, 90000, None],
    'departure_secs': [0, 60, 300, 600, 3600, 86400, 90000, None],
    'pickup_type': [0, 1, 2, 3, None],
    'drop_off_type': [0, 1, 2, 3, None],
    'timepoint': [0, 1, None],
    'shape_dist_traveled': [0.0, 1.0, 2.0, 2.5, None],
    'stop_sequence': [0, 1, 2, 3, 5, 9],
})

classdecl('ShapePoint', 'transitfeed.shapepoint.ShapePoint', fields={
    'shape_id': 'Opt[Str]',
    'shape_pt_lat': 'Union[None,Float,Str]',
    'shape_pt_lon': 'Union[None,Float,Str]',
    'shape_pt_sequence': 'Union[None,Int,Str]',
    'shape_dist_traveled': 'Union[None,Float,Str]',
    '_schedule': 'Opt[Schedule]',
})

classdecl('Shape', 'transitfeed.shape.Shape', fields={
    'shape_id': 'Opt[Str]',
    'points': 'List[Tuple[Float,Float,Opt[Float]]]',
    'distance': 'List[Opt[Float]]',
    'max_distance': 'Float',
    'sequence': 'List[Int]',
    '_schedule': 'Opt[Schedule]',
}, pools={
    'shape_id': ['SH1', 'SH2', '', None],
})

classdecl('Schedule', 'transitfeed.schedule.Schedule', fields={
    '_agencies': 'Dict[Opt[Str],Agency]',
    'stops': 'Dict[Opt[Str],Stop]',
    'routes': 'Dict[Opt[Str],Route]',
    'trips': 'Dict[Opt[Str],Trip]',
    'service_periods': 'Dict[Opt[Str],ServicePeriod]',
    'fares': 'Dict[Opt[Str],FareAttribute]',
    'fare_zones': 'Dict[Str,Bool]',
    '_table_columns': 'Dict[Str,List[Str]]',
    '_shapes': 'Dict[Opt[Str],Shape]',
    '_transfers': 'Dict[Tuple[Str,Str],List[Transfer]]',
    '_default_service_period': 'Opt[ServicePeriod]',
    '_default_agency': 'Opt[Agency]',
    'feed_info': 'Opt[FeedInfo]',
    'problem_reporter': 'Reporter',
    '_check_duplicate_trips': 'Bool',
    '_gtfs_factory': 'Factory',
    # ghost: the rows of the table stop_times, in order of insertion
    '_db_rows': 'List[Tuple[Opt[Str],Opt[Int],Opt[Int],Opt[Str],Opt[Int],'
                'Opt[Str],Opt[Int],Opt[Int],Opt[Float],Opt[Int]]]',
}, pools={
    '_db_rows.item.0': ['T1', 'T2', 'T3'],
    '_db_rows.item.1': [0, 60, 600, 3600, 90000, None],
    '_db_rows.item.2': [0, 60, 600, 3600, 90000, None],
    '_db_rows.item.3': ['S1', 'S2', 'S3'],
    '_db_rows.item.4': [0, 1, 2, 3, 5, 9, 10, 12],
    '_db_rows.item.5': [None, '', 'Downtown'],
    '_db_rows.item.6': [0, 1, 2, 3, None],
    '_db_rows.item.7': [0, 1, 2, 3, None],
    '_db_rows.item.8': [0.0, 1.0, 2.5, None],
    '_db_rows.item.9': [0, 1, None],
    'stops.key': ['S1', 'S2', 'S3'],
    'routes.key': ['R1', 'R2'],
    'trips.key': ['T1', 'T2'],
    'service_periods.key': ['W1', 'W2'],
    '_agencies.key': ['A1', 'A2'],
    '_shapes.key': ['SH1', 'SH2'],
    'fares.key': ['f1', 'f2'],
    '_transfers.key.0': ['S1', 'S2', 'S3'],
    '_transfers.key.1': ['S1', 'S2', 'S3'],
})
