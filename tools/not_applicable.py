NYI = 'no contract has been written for it yet'
NA = {i: NYI for i in ['C%02d' % k for k in range(1, 33)]}
FORCE_NA = set()
