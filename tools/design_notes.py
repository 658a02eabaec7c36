NOTES = {
'C01': '''Clock times and their text are total functions of small integers, so
the contracts state parse and format for all strings and all seconds; the lemmas
compose them (round trip, order).''',
'C15': '''`Schedule.ValidateBlockTrips` and the sorting of block trips use
closures and comparison functions of locally built records, which the
generator cannot couple; the whole-block statement is therefore a bounded
check against an independent quadratic oracle, the parts under it are
proved.''',
'C18': '''`_ReadCsvDict` and `_ReadCSV` are generators over the csv module,
which the generator of obligations does not model: bounded, with random
tables (quotes, blank and repeated headers, short and long rows, bytes that
are no utf-8, byte order marks, utf-16, nulls) against an oracle working on the
cells the text was made of. Above them `_LoadStopTimes` is proved for all rows
(the rows a file gives are a ghost field). `_LoadCalendar` was attempted: the
only obligation left open is that dates read do not end in a newline when the
periods are handed to `AddServicePeriodObject` (z3 and cvc5 time out on the
quantified invariant), so it is covered by `whole_feeds` only.''',
'C19': '''The texts of each object's fields are proved; the files as a whole go
through zipfile and csv and are compared cell by cell by a csv reader written
for the check. Numbers of agencies, stops, routes and trips are written by
`%s`, that is with twelve significant digits.''',
'C20': '''Context and severity are proved on the reporter's own methods. "Once,
with its context" for every kind of report is a bounded scenario calling all
reporting methods by reflection, because the reports are built from keyword
dictionaries.''',
'C21': '''Merging by id, by name and by attributes is proved down to the copies
made; the loop over all objects of both feeds is compared with an
independent oracle on random pairs of schedules.''',
'C25': '''`EndOfLineChecker.next` searches regular expressions over bytes the
generator does not model; it is compared with an oracle that works on the
lines the file was made of.''',
'C28': '''The stop_times table is the ghost field `_db_rows`; the SQL statements
in the code are parsed on every run and executed symbolically against it
(see "SQL").''',
'C29': '''Best-path claims need an inductive argument over paths that the
inferred loop invariants cannot express; bounded against Floyd-Warshall on
random graphs of up to six nodes and twelve edges.''',
'C33': '''Every cross-table check is proved for all schedules; the dispatcher
`Schedule.Validate` is checked to call each.''',
}
