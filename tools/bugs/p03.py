ID="C11-hole-right-end"; PROP="C11"
NEEDS="evaluation at exactly the right end of a piece which is followed by a hole"
BREAKS="the value at the end of a piece before a hole is zero instead of the limit of the piece"
EDITS=[("pacal/segments.py","""            if self.segments[ind].a <= x <= self.segments[ind].b:
                return self.segments[ind]
            elif self.segments[ind-1].b == x:
                return self.segments[ind-1]
            else: # hole in the support""","""            if self.segments[ind].a <= x <= self.segments[ind].b:
                return self.segments[ind]
            elif self.segments[ind-1].b == x and self.segments[ind-1].isDirac():
                return self.segments[ind-1]
            else: # hole in the support""")]
DEMO='''
import sys
import pacal as P
from pacal.segments import *
f = PiecewiseFunction([])
f.addSegment(ConstSegment(0.0, 1.0, 2.0))
f.addSegment(ConstSegment(2.0, 3.0, 5.0))
sys.exit(0 if f(1.0) == 2.0 and f(1.5) == 0 and f(2.0) == 5.0 else 1)
'''
