"""What each check runs: driver(s) over the real code, trace specification(s),
design models, and the kinds of event that must have been observed."""
CHECKS = {}
NOT_APPLICABLE = {}
def check(prop, units, models=(), expect=(), level="model_checking", assumptions=()):
    for i, u in enumerate(units):
        u.setdefault("name", f"u{i}")
        u.setdefault("libs", ["eo"])
    CHECKS[prop] = dict(units=units, models=list(models), expect=list(expect), level=level, assumptions=list(assumptions))

check("C31", [dict(driver="archive.cpp", libs=["eo", "moeo"], trace="T_Archive", gen=dict(module="Gen_Archive", num=150, depth=14))],
      models=["MC_Archive"], expect=["unbounded", "query", "equals"])
check("C32", [dict(driver="archive.cpp", libs=["eo", "moeo"], trace="T_Archive", mode="bounded", gen=dict(module="Gen_Archive", num=100, depth=14))],
      models=["MC_Archive"], expect=["impr", "fitdiv"])
check("C30", [dict(driver="dominance.cpp", libs=["eo", "moeo"], trace="T_Dominance")],
      models=["MC_Dominance"], expect=["vec", "eps", "sol", "dual"])
check("C33", [dict(driver="mofit.cpp", libs=["eo", "moeo"], trace="T_MoPop")],
      models=["MC_MoPop"], expect=["depth", "depthdel", "rank", "count", "ranking", "dommat", "ind", "inddel", "indadd", "agg"])
check("C34", [dict(driver="mofit.cpp", libs=["eo", "moeo"], trace="T_MoPop", mode="div")],
      models=["MC_MoPop"], expect=["crowd", "share", "near", "dist", "matrix"])
check("C37", [dict(driver="metric.cpp", libs=["eo", "moeo"], trace="T_Metric")],
      models=["MC_Metric"], expect=["hv", "hvdiff", "eps", "pair", "contrib", "refdist"])
check("C35", [dict(driver="moalgo.cpp", libs=["eo", "moeo"], trace="T_MoAlgo")],
      models=["MC_MoAlgo"], expect=["elit", "env", "genl", "gen", "long", "sizechange", "spea2"])
check("C36", [dict(driver="dmls.cpp", libs=["eo", "moeo"], trace="T_Dmls")],
      models=["MC_Dmls"], expect=["exhaustive", "simple", "first", "nodes", "round", "monop", "upd"])
check("C09", [dict(driver="evalcount.cpp", trace="T_Evaluation", libs=["eo"]), dict(name="omp", driver="evalcount.cpp", trace="T_Evaluation", libs=["eo"], flags=["-fopenmp"], ldflags=["-fopenmp"], shards=2)],
      models=["MC_Evaluation"], expect=["count", "budget", "time", "utime", "nan", "keep", "ptr", "kreset", "loop", "vary", "apply", "omp", "ompdyn", "run", "dump", "dump1", "print", "cmd", "proc"])
check("C10", [dict(driver="cont.cpp", trace="T_Stopping", libs=["eo"])],
      models=["MC_Stopping"], expect=["gen", "fit", "steady", "evals", "time", "secs", "period", "comb", "inv", "mkask", "refuse", "ctrlc", "sig", "creset", "cset", "ccopy", "shared"])
check("C11", [dict(driver="checkpoint.cpp", trace="T_Checkpoint", libs=["eo"])],
      models=["MC_Checkpoint"], expect=["cp", "sigcp", "file", "keep", "over", "head", "ostream", "stdout", "log", "logn", "made", "saver", "tsaver", "dyn", "tdyn", "tmon", "gencount", "incr", "snap", "time", "snapint"])
check("C20", [dict(driver="nbh.cpp", trace="T_Neighborhood")],
      models=["MC_Neighborhood"], expect=["bit-order", "bit-rndwo", "bit-rndwith", "bit-order-evaluated", "iswap-order", "shift-rndwo", "swap", "twoopt", "bitswo", "bitswith", "bitflip", "partition", "key", "cover"])
check("C21", [dict(driver="moeval.cpp", trace="T_Problems")],
      models=["MC_Problems"], expect=["copy", "modif", "incr", "bitsincr", "mv", "back", "adopt", "nbx", "eq", "count"])
check("C27", [dict(driver="moeval.cpp", trace="T_Problems", mode="prob")],
      models=["MC_Problems"], expect=["onemax", "royal", "ubqp", "maxsat", "nk", "qap", "queens", "longk", "inst", "same"])
check("C22", [dict(driver="lsearch.cpp", trace="T_LocalSearch")],
      models=["MC_LocalSearch"], expect=["simple", "first", "rbest", "neutral", "rwalk", "rneutral", "rsearch", "cover", "end"])
check("C23", [dict(driver="lsearch.cpp", trace="T_Tabu", mode="ts")],
      models=["MC_Tabu"], expect=["ts", "list", "ladd", "lupd", "div", "moved"])
check("C24", [dict(driver="lsearch.cpp", trace="T_LocalSearch", mode="sa")],
      models=["MC_LocalSearch"], expect=["sa", "mh", "sched", "cool", "sarate", "mhrate"])
check("C25", [dict(driver="iterated.cpp", trace="T_Iterated")],
      models=["MC_Iterated"], expect=["ils", "vns", "sel", "pbeg", "shake", "crit", "init", "inited", "copied", "snext"])
check("C26", [dict(driver="control.cpp", trace="T_Control")],
      models=["MC_Control"], expect=["crit", "drive", "driven", "time", "stat", "basic", "acf", "dists", "dos", "walk", "fdc", "ndeg", "nwalk1", "nwalk2", "hc", "adapt", "rbest", "rrnd", "mhbest", "mhrnd", "export"])
check("C12", [dict(driver="popstat.cpp", trace="T_PopStat", libs=["eo"])],
      models=["MC_PopStat"], expect=["sort", "shuffle", "best", "worst", "nth", "nthptr", "nthfit", "swap", "append", "average", "moment", "bestfit", "bestind", "iqr", "nthstat", "nthsorted", "sum", "all", "dump", "sdump", "spread", "fdcham", "fdcl1", "dist", "size", "feas", "dualsplit", "dualbest"])
check("C06", [dict(driver="select.cpp", trace="T_Selection", libs=["eo"])],
      models=["MC_Selection"], expect=["seq", "shuf", "elite", "round", "sus", "member", "best", "positive", "det", "stoch", "invstoch", "invdet", "uniform", "prop", "worth", "rank", "scale", "share", "wsort", "wresize", "many", "trunc", "fill", "rankmu", "refuse", "sumfit", "sumscaled", "minim", "ext"])
check("C07", [dict(driver="replace.cpp", trace="T_Replacement")],
      models=["MC_Replacement"], expect=["plus", "comma", "gen", "ep", "ssworse", "ssdet", "ssstoch", "weakgen", "weakcomma", "weakin", "weakss", "mgg", "g3", "rmrstrong", "rmrweak", "sad", "red", "mrg", "spl", "sadpart", "rate"])
check("C03", [dict(driver="perm.cpp", trace="T_Permutation", libs=["eo"])],
      models=["MC_Permutation"], expect=["swap", "shift", "twoopt", "ox", "pmx", "init", "run", "refuse"])
check("C04", [dict(driver="bitop.cpp", trace="T_BitString", libs=["eo", "ga"])],
      models=["MC_BitString"], expect=["one", "det", "single", "rate", "inv", "next", "prev", "standard", "uniform", "normal", "fast", "conditional", "shifted", "bucket", "1pt", "npt", "gene", "uni", "fixed", "variable", "badinit", "rate-bit", "rate-bitn", "rate-standard", "rate-uni", "reach-one", "again-bucket", "again-npt"])
check("C05", [dict(driver="realop.cpp", trace="T_Bounds", libs=["eo"])],
      models=["MC_Bounds"], expect=["real", "realdup", "realfar", "int", "intfar", "point", "genreal", "genint", "general", "refuse", "vec", "parse", "uniform", "uniformb", "uniformv", "det", "detb", "detv", "normal", "normalb", "normalvec", "normalvecb", "still", "wild", "segment", "box", "ux", "sbx", "exchange", "intermediate", "init", "sigma", "esmut", "esx", "global", "toint-mon", "toint-quad", "toint-init"])
BREED = ["selpop", "seqpop", "apply", "tree", "sgagen", "propgen", "sgatr", "dynsga", "seltr", "onetoone", "hm", "propmon", "propquad", "propbin", "propop", "seqrate", "seqone", "sgacross", "sgamut", "gencross", "genmut", "wrap"]
check("C08", [dict(driver="breed.cpp", trace="T_Breeding", libs=["eo"])],
      models=["MC_Breeding"], expect=BREED)
check("C18", [dict(driver="varlen.cpp", trace="T_VarLength", libs=["eo"])],
      models=["MC_VarLength"], expect=["vlatom", "vlalt", "vluni", "take", "add", "del", "inner", "florall", "flork", "addpos", "delpos", "florpos", "atomrate", "quadrate", "binrate", "innerrate", "florrate", "init"])
REPORT = "onebit detbit detsingle bitmut inversion next prev standard conditional shifted uniform normal fast bucket 1pt uxover npts gxover initadaptor monclone binclone quadclone swap shift twoopt order pmx vlatom vluni vlbin inner vladd vldel florall flork unif unifb unifv det detb normvec normvecb norm normb segment segmentb cube cubeb rux sbx sbxb fifth essimplemut esstdevmut esfullmut essimplex esstdevx esfullx essimpleglobal esstdevglobal esfullglobal intmon intmonb intquad intquadb intquads subtree branch point expansion collapse hoist combined-mon combined-bin combined-quad mon2quad1 mon2quad2 quad2bin".split()
check("C02", [dict(driver="report.cpp", trace="T_Variation", libs=["eo"]),
              dict(driver="breed.cpp", trace="T_Breeding", libs=["eo"])],
      models=["MC_Variation", "MC_Breeding"], expect=REPORT + ["apply"])
check("C13", [dict(driver="rng.cpp", trace="T_RandomStream", libs=["eo"])],
      models=["MC_RandomStream"], expect="save load choice shuffled wheel wheels rand uniform uniformm uniformlh random randombig flip binomial normal normals normalms negexp powerlaw gen-u gen-um gen-ui gen-ub gen-b gen-n gen-e bgen ugen rgen rgenm ufgen ngen egen init-u init-ub init-b init-n init-e interval general vector intinterval intgeneral eorandom eorandomi eonormal popshuffle skip bucket fliprate binrate normhalf expmed normmean normvar genrate boundrate rgenrate ubad".split())
check("C14", [dict(driver="persist.cpp", trace="T_Persistence", libs=["eo", "moeo"])],
      models=["MC_Persistence"], expect=["write", "read", "save", "edit", "own", "other"] + ["r%d" % k for k in range(31)] + ["w%d" % k for k in range(31)])
check("C17", [dict(driver="param.cpp", trace="T_Parameters", libs=["eo"])],
      models=["MC_Parameters"], expect="withfile nofile help again lookup reprint reread args argstext t0 t1 t2 t3 t4 t5 t6 t7 set-bool text-int text-unsigned text-double6 text-double17 text-string text-vector text-vector2 text-fitvector text-pair text-howmany text-paramparam set-string set-double17".split())
check("C28", [dict(driver="fitorder.cpp", trace="T_FitnessOrder", libs=["eo"])],
      models=["MC_FitnessOrder"], expect=["cmp-" + k for k in "double max min dualmax dualmin asmmax asmmin".split()] + ["sort-" + k for k in "double max min dualmax dualmin asmmax asmmin".split()] + "nth-min nthf-min nthp-min worst-min best-dualmin emptybest nofitness sortedprint split-dualmin ratio num-add num-sub num-div fit-add fit-sub fit-div eq terms head nohead assign term avg asmbest badterm switch".split())
check("C01", [dict(driver="evolve.cpp", trace="T_Evolution", libs=["eo"])],
      models=["MC_Evolution"], expect="ea-breed ea-size ea-popeval-size ea-popeval ea-popeval-sel ea-merge ea-sel ea-sel-merge growing shrinking sga fast cell restart-popeval restart-eval restart-reset restart-size restart-list restart-comb resets eda updates bits perms reals with-plus with-comma with-ep with-ssgaworse with-ssgadet with-ssgastoch with-generational with-elitist with-sad with-merge".split())
check("C16", [dict(driver="forge.cpp", trace="T_Foundry", libs=["eo"])],
      models=["MC_Foundry"], expect="cached anew add0 add1 add2 setup0 setup1 setup2 make makeptr norank map named namedsetup namedmake scalar fastenc fastname fastrun fastcut eaenc eaname earun decoded penalised kept".split())
CFGX = "dettour stochtour ranking ordered unordered roulette random comma plus ssworse outdet outstoch maxgen steady maxeval target stopany nocriterion badsel badrep seeded load reload hrate hcount hread hset".split()
check("C19", [dict(name="scalar", driver="configure.cpp", trace="T_Configured", libs=["eo"]), dict(name="easea", driver="configure.cpp", trace="T_Configured", libs=["eo"], flags=["-DEASEA"])],
      models=["MC_Configured"], expect=CFGX + "sharing elite ssany general ssga g3 mgg nocross nomut none onept twopt unif flip onebit kbit mixmut badop chrom segment cube ux runiform rnormal rdet rpnormal rnone badrop vec nodist badmgg badreduce badstoch badhow badsigma".split())
check("C15", [dict(driver="pso.cpp", trace="T_Swarm", libs=["eo"])],
      models=[dict(name="MC_Swarm", cfg="MC_Swarm_" + k) for k in ("linear", "ring", "star")],
      expect="vel fly eval upd iter linear ring star standard constricted extended integer inertia varinertia constrvar syncpso asyncpso badsize nbout nbids nbhas lindec rndw badw decay bitext bithalf nofit nobest hasfit hasbest bestkept position posinvalid order".split())
check("C29", [dict(driver="tree.cpp", trace="T_Trees", libs=["eo"])], models=["MC_Trees"], expect="put putown node swapt swaps swapown copy push join text prune xover branch expand collapse point hoist walk subs find cfind select cumulative eq grow full ramp half tgrow tfull empty tempty xfirst xsecond hoistat pointat".split())
check("C54", [dict(driver="serial.cpp", trace="T_Documents", libs=["serial"])], models=["MC_Documents"], expect="trip read int long double float bool unsigned string ints doubles strings nested map mapvec object inobject inarray".split())
check("C40", [dict(driver="edo.cpp", trace="T_Estimation", libs=["eo"])], models=["MC_Estimation"], expect="uniform mono multi binomial binomialmulti adaptive unif spread bits grid viauniform viamono viamulti viaadaptive bounded rebounded clamp redraw none generator floor ceil round tenths modulo parts centre combined check finite cond chain chainless reset resetdim ereset eresetdim full edit transform transformless volume".split())
check("C41", [dict(driver="edarun.cpp", trace="T_EdaRun", libs=["eo"])], models=["MC_EdaRun"], expect="adaptive-init adaptive-cont adaptive stateless-cont stateless first estimate select sample evaluate replace popcont discont end mono multi uniform".split())
check("C42", [dict(driver="cma.cpp", trace="T_Adaptation", libs=["eo", "es"])], models=["MC_Adaptation"], expect="log equal linear defaults max min first centre far near axis probe learn again rest history".split())
check("C52", [dict(driver="topology.cpp", trace="T_Topology", libs=["smp", "eo"])], models=["MC_Topology"], expect="complete ring star mesh hyper fbool fstoch nobool nostoch stoch isolate nb centre ratio bget".split())
check("C50", [dict(name="smp", driver="parallel.cpp", trace="T_Parallel", libs=["smp", "eo"], threads=True), dict(name="omp", driver="parallel.cpp", trace="T_Parallel", libs=["smp", "eo"], flags=["-fopenmp"], ldflags=["-fopenmp"], mode="omp", threads=True)],
      models=[dict(name="MC_Scheduler", cfg="MC_Scheduler_" + k) for k in ("linear", "progressive")], expect="linear progressive mwapply mweval mwall plain ea-linear ea-progressive sync-linear sync-progressive async-linear async-progressive loopdyn loopstat loopoff".split())
check("C51", [dict(driver="islands.cpp", trace="T_Islands", libs=["smp", "eo"], threads=True)], models=[dict(name="MC_IslandModel", cfg="MC_IslandModel_" + k) for k in ("complete", "ring", "star")], expect="complete ring star mesh hyper matrix alone hom het early rerun retopo emit integ wrap".split())
check("C53", [dict(driver="mpijobs.cpp", trace="T_Jobs", libs=["eo", "mpi", "serial"], sources=["$HARN/fakempi/fakempi.cpp"], flags=["-DWITH_MPI", "-I/verif/harness/fakempi"])],
      models=[dict(name="MC_MasterWorker", cfg="MC_MasterWorker_" + k) for k in ("dynamic", "static", "multi", "tight")],
      expect="apply popeval oneshot multi roles throw assign in out end abort run bests seed exit over get confirm idles reinit".split())
