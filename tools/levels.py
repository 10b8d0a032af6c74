BASE = 'Every recorded call of the real library is checked against the specification by TLC; coverage is the generated images and histories plus every short behaviour of the specification, not all inputs. Trusts TLC, the image writer lib/mksq.py, zlib, gcc.'
NOTES = {'C%02d' % i: ('', BASE) for i in range(1, 30)}
