SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxObj = 1
 MaxHist = 5
 Grid = "large"
 PairFams = {"Normal", "Uniform", "Trapezoidal", "Cauchy", "ChiSquare", "Exponential", "Gamma", "Beta", "Pareto", "Levy",
         "Laplace", "StudentT", "Semicircle", "F", "Weibull", "Gumbel", "Frechet", "LogLogistic", "Mollifier", "Poisson", "Binomial",
         "Bernoulli", "Const", "FunPower", "FunExp", "FunNormal", "FunPareto", "TruncPoisson",
         "TruncGeometric", "NoncentralT", "NoncentralChiSquare", "NoncentralBeta", "NoncentralF"}
INVARIANTS Proper EmitInv
PROPERTIES Stable
