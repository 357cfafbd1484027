---------------------------- MODULE MC_Session ----------------------------
EXTENDS Session
CtxAll == <<<<"U", "N">>, <<"D", "M">>, <<"E", "D">>, <<"C", "U">>, <<"X2", "K">>, <<"G", "B">>, <<"F", "E">>,
           <<"M", "N">>, <<"L", "D">>, <<"T", "U">>, <<"B", "M">>, <<"P", "K">>, <<"H", "U">>, <<"N", "S">> >>
UnAll == <<"neg", "abs", "addc", "rsubc", "mulc", "divc", "rdivc", "sqr", "powc", "exp", "minc", "maxc", "gt", "lt", "bt",
           "sign", "atan", "tanh", "iidsum", "iidmax", "iidmedian", "iidprod", "mixc">>
BinAll == <<"add", "sub", "mul", "div", "min", "max", "mix">>
AskAll == <<"pdf", "cdf", "ccdf", "quantile", "mean", "var", "std", "median", "medianad", "mode", "entropy", "skew", "kurt", "moment3",
            "range", "range_", "interval", "iqrange", "summary_map", "summary", "str", "name", "sym", "parents", "rand", "rand1", "randinv",
            "int_error", "interp_error", "log_pdf", "isnonneg", "five", "boxplot", "tailexp", "pdfp", "cdfp", "ccdfp", "invp", "cdfi",
            "scaled", "split", "interp", "shifted", "plot", "hist", "meanf", "pickle", "deepcopy", "pdf1">>
Ask2All == <<"L2", "KL", "pwsum", "pwprod">>
=============================================================================
