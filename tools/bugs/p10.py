ID="C07-weibull-zero"; PROP="C07"
NEEDS="density at exactly zero of a Weibull variable with shape one and scale other than one"
BREAKS="the density at the left end is that of scale one"
EDITS=[("pacal/standard_distr.py","""        elif self.k == 1:
            self.pdf_at_0 = 1.0 / self.lmbda
        else:
            self.pdf_at_0 = 0
    def pdf(self, x):
        if isscalar(x):
            if x < 0:
                y = 0
            elif x == 0:
                y = self.pdf_at_0
            else:
                y = self.nrm * exp(log(x / self.lmbda)*(self.k-1)""","""        elif self.k == 1:
            self.pdf_at_0 = 1.0
        else:
            self.pdf_at_0 = 0
    def pdf(self, x):
        if isscalar(x):
            if x < 0:
                y = 0
            elif x == 0:
                y = self.pdf_at_0
            else:
                y = self.nrm * exp(log(x / self.lmbda)*(self.k-1)""")]
DEMO='''
import sys
import pacal as P
sys.exit(0 if abs(P.WeibullDistr(1, 4).pdf(0) - 0.25) < 1e-12 else 1)
'''
