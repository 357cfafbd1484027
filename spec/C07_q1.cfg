SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxObj = 2
 MaxHist = 4
 Grid = "small"
 PairFams = {"Normal", "Uniform", "Trapezoidal", "Cauchy", "ChiSquare", "Exponential", "Gamma", "Beta", "Pareto", "Levy",
         "Laplace", "StudentT", "Semicircle", "F", "Weibull", "Gumbel", "Frechet", "LogLogistic", "Mollifier", "Poisson", "Binomial",
         "Bernoulli", "Const", "FunPower", "FunExp", "FunNormal", "FunPareto", "TruncPoisson",
         "TruncGeometric", "NoncentralT", "NoncentralChiSquare", "NoncentralBeta", "NoncentralF"}
INVARIANTS Proper EmitInv
PROPERTIES Stable
