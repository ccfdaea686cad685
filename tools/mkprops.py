#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=observe or [], hook_needed=None)))

# ---------------------------------------------------------------- EO
p("C01","Evolved populations always carry the true fitness of each genotype",
  "Whatever operators, selection, breeding and replacement are plugged together, after the initial evaluation and after every generation each individual of the population has a valid fitness equal to what the objective function returns for its current genotype. The population keeps its size from one generation to the next, and the algorithm performs at least one generation and stops after the first generation for which its continuation criterion says stop.",
  ["inputs","configurations","histories"],"all genotypes, operator/breeder/replacement combinations, seeds and generation histories",
  "Tests run one configuration with one seed and mostly only print; a stale fitness after a rare operator outcome is invisible to them.",
  ["eo/src/eoEasyEA.h","eo/src/eoSGA.h","eo/src/eoPopEvalFunc.h","eo/src/eoEvalFunc.h","eo/src/EO.h","eo/src/eoGeneralBreeder.h","eo/src/eoSGAGenOp.h","eo/src/eoSGATransform.h","eo/src/eoFastGA.h","eo/src/eoAlgoRestart.h","eo/src/eoAlgoReset.h","eo/src/eoCellularEasyEA.h","eo/src/eoSimpleEDA.h"],
  [("invalidate-on-change in op wrappers","eo/src/eoGenOp.h"),("re-evaluate invalid only","eo/src/eoPopEvalFunc.h")],["population after each generation"])
p("C02","Variation reports every change and invalidates exactly what it changed",
  "A variation operator that reports 'no modification' has left every argument's genotype exactly as it was. When operators are applied through the generic operator wrappers, combined operators, operator containers or the transform step, every individual whose genotype changed ends up with an invalid fitness (or one recomputed for its new genotype), and an individual on which no operator reported a modification keeps its fitness.",
  ["inputs","configurations"],"all operators on bit, integer, real and permutation genotypes, all argument values including identical, homogeneous and minimal-length parents",
  "Operator tests print one or two applications; the unchanged-but-true and changed-but-false cases depend on particular draws and degenerate inputs.",
  ["eo/src/eoOp.h","eo/src/eoGenOp.h","eo/src/eoInvalidateOps.h","eo/src/eoProportionalCombinedOp.h","eo/src/eoOpContainer.h","eo/src/ga/eoBitOp.h","eo/src/es/eoRealOp.h","eo/src/eoSwapMutation.h","eo/src/eoShiftMutation.h","eo/src/eoTwoOptMutation.h","eo/src/eoOrderXover.h","eo/src/utils/eoRealVectorBounds.h"],
  [("boolean return of eoMonOp/eoBinOp/eoQuadOp","eo/src/eoOp.h"),("invalidate() in wrappers","eo/src/eoGenOp.h")],["genotype and validity before/after"])
p("C03","Permutation operators always yield permutations",
  "The permutation initialiser and every permutation mutation and crossover produce a permutation of exactly the original elements, with nothing lost or duplicated. A swap exchanges exactly the elements of two positions, a shift moves one element and keeps the relative order of all others, a 2-opt reverses one contiguous segment, order crossover starts each child with a contiguous block of one parent followed by the remaining elements in the cyclic order of the other, and partially mapped crossover exchanges one segment and repairs the rest through the exchanged pairs.",
  ["inputs"],"all permutation lengths and contents, all cut-point and position draws",
  "Tests check one length with a handful of draws.",
  ["eo/src/eoInit.h","eo/src/eoSwapMutation.h","eo/src/eoShiftMutation.h","eo/src/eoTwoOptMutation.h","eo/src/eoOrderXover.h","eo/src/eoPartiallyMappedXover.h","eo/src/eoInt.h"],
  [("in-place rearrangement","eo/src/eoShiftMutation.h"),("order crossover","eo/src/eoOrderXover.h")])
p("C04","Bit-string operators change only the loci they are meant to",
  "Bit-string crossovers exchange alleles locus by locus: at every position the two children hold the two parents' alleles, and one-point, n-point and uniform crossovers produce only exchange patterns of their kind. Single and fixed-count bit-flip mutations flip exactly the announced number of distinct loci, rate-based ones flip each locus with the announced probability, inversion, successor and predecessor follow their definition, and bit initialisers produce exactly the requested length; the outcome depends only on the library's random generator.",
  ["inputs"],"all string lengths and contents, all draws, flip counts from 0 to the length",
  "Tests print results or check only lengths for one seed.",
  ["eo/src/ga/eoBitOp.h","eo/src/ga/eoBit.h","eo/src/ga/eoStandardBitMutation.h","eo/src/utils/eoInit.h","eo/src/eoFlip.h"] if os.path.exists("/repo/eo/src/eoFlip.h") else ["eo/src/ga/eoBitOp.h","eo/src/ga/eoBit.h","eo/src/ga/eoStandardBitMutation.h","eo/src/eoInit.h"],
  [("locus exchange","eo/src/ga/eoBitOp.h")])
p("C05","Bounded numeric initialisers and operators never leave their bounds",
  "Initialisers, mutations and crossovers that were given bounds return only in-bounds values in every coordinate; folding and truncating map any value into the bounds and leave in-bounds values untouched. Arithmetic crossovers between parents stay between (or, when extended by alpha, within the extended segment or box of) the parents, and coordinates a coordinate-wise operator does not pick are unchanged.",
  ["inputs","configurations"],"all bound kinds (none, half-open, interval), dimensions, parents on or off the bounds and step sizes much larger than the range",
  "Tests print values for a seed; leaving the bounds needs a particular parent, step and draw.",
  ["eo/src/utils/eoRealBounds.h","eo/src/utils/eoRealBounds.cpp","eo/src/utils/eoRealVectorBounds.h","eo/src/utils/eoIntBounds.h","eo/src/es/eoRealOp.h","eo/src/es/eoNormalMutation.h","eo/src/es/eoRealInitBounded.h","eo/src/es/eoRealAtomXover.h"],
  [("foldsInBounds/truncate","eo/src/utils/eoRealBounds.h"),("range clipping of alpha","eo/src/es/eoRealOp.h")])
p("C06","Selection returns population members with the pressure it documents",
  "Selecting never changes the population and every selected individual is a member of it. Sequential selection goes through all individuals once (best first when ordered) before repeating any, deterministic tournaments and truncation pick the best of their contestants, and the proportional, ranking, stochastic-tournament and uniform selectors choose each individual with the frequency their definition gives.",
  ["inputs","configurations"],"all populations (ties, equal fitnesses, singletons, minimising and maximising fitness), tournament sizes and rates",
  "Tests use one population, and print frequencies without checking them.",
  ["eo/src/eoSelectOne.h","eo/src/eoDetTournamentSelect.h","eo/src/eoStochTournamentSelect.h","eo/src/eoSequentialSelect.h","eo/src/eoProportionalSelect.h","eo/src/eoRankingSelect.h","eo/src/eoRankMuSelect.h" if os.path.exists("/repo/eo/src/eoRankMuSelect.h") else "eo/src/eoRanking.h","eo/src/eoSelectMany.h","eo/src/eoSelectNumber.h","eo/src/eoSelectPerc.h","eo/src/utils/selectors.h","eo/src/eoTruncSelect.h","eo/src/eoRandomSelect.h"],
  [("tournament helpers","eo/src/utils/selectors.h"),("worths","eo/src/eoSelectFromWorth.h")])
p("C07","Replacement builds the next population only from parents and offspring",
  "Every replacement, merge, reduction and truncation yields a population of its specified size whose members are, each with its own genotype and fitness, members of the parents and offspring with no individual used more often than it was available. Plus-type strategies keep exactly the best of parents and offspring together, comma-type exactly the best offspring, generational exactly the offspring, and elitist variants never lose the best fitness of the parents; steady-state strategies replace only as many individuals as there are offspring.",
  ["inputs","configurations"],"all parent and offspring sizes, fitness ties, minimising and maximising fitness",
  "Tests print populations for one set of sizes.",
  ["eo/src/eoReplacement.h","eo/src/eoMerge.h","eo/src/eoReduce.h","eo/src/eoMergeReduce.h","eo/src/eoReduceMerge.h","eo/src/eoReduceMergeReduce.h","eo/src/eoMGGReplacement.h","eo/src/eoReduceSplit.h"],
  [("merge then reduce","eo/src/eoMergeReduce.h"),("eoTruncate/eoLinearTruncate","eo/src/eoReduce.h")])
p("C08","Breeding delivers exactly the requested number of offspring at the set rates",
  "Breeders and transforms return exactly as many offspring as requested for any parent size, rate and operator arity, all derived from copies so that parents are never modified. In operator containers an operator whose rate is zero is never applied, in a sequence an operator of rate one is applied to every individual produced so far in the step, and in proportional choices exactly one operator is applied per step with frequency proportional to its rate.",
  ["inputs","configurations"],"all parent sizes, requested counts and percentages, mixes of operators of different arity and rates",
  "Tests run one breeder configuration and print.",
  ["eo/src/eoGeneralBreeder.h","eo/src/eoOneToOneBreeder.h","eo/src/eoOpContainer.h","eo/src/eoPopulator.h","eo/src/utils/eoHowMany.h","eo/src/eoSGATransform.h","eo/src/eoSGAGenOp.h","eo/src/eoProportionalCombinedOp.h","eo/src/eoCloneOps.h"],
  [("populator growth and truncation to target","eo/src/eoGeneralBreeder.h"),("rate draw","eo/src/eoOpContainer.h")])
p("C09","Evaluation counters, budgets and best-so-far records are exact",
  "An evaluation counter equals the number of objective function calls made through it, individuals whose fitness is valid are not re-evaluated, and a budget-throwing counter stops the run at the announced number of evaluations with no further call counted. The best-so-far memory always equals the best individual evaluated since creation, and evaluating a population evaluates each invalid individual exactly once.",
  ["histories","inputs"],"all sequences of valid/invalid individuals, budgets and fitness directions",
  "Tests use one counter on one population.",
  ["eo/src/eoEvalFunc.h","eo/src/eoEvalFuncCounter.h","eo/src/eoEvalFuncPtr.h","eo/src/eoEvalCounterThrowException.h","eo/src/eoEvalKeepBest.h","eo/src/eoPopEvalFunc.h","eo/src/eoEvalTimeThrowException.h"],
  [("value()++ on invalid","eo/src/eoEvalFuncCounter.h")])
p("C10","Stopping criteria stop exactly when they say, combined or not",
  "A generation limit allows exactly that many checks (counting from its reset) before asking to stop; a target-fitness criterion asks to stop iff the best individual has reached the target in the direction of optimisation; a steady-state criterion asks to stop only after the minimum number of generations and the announced number of generations without improvement; an evaluation limit asks to stop iff the counter reached it. A combined criterion continues iff all its parts would continue, and the state of each part advances as documented.",
  ["histories","configurations"],"all fitness histories, limits, and combinations",
  "Tests check a single limit on one run.",
  ["eo/src/eoGenContinue.h","eo/src/eoFitContinue.h","eo/src/eoSteadyFitContinue.h","eo/src/eoEvalContinue.h","eo/src/eoCombinedContinue.h","eo/src/eoTimeContinue.h","eo/src/eoPeriodicContinue.h","smp/src/sharedFitContinue.cpp","eo/src/eoFitnessStagnation.h" if os.path.exists("/repo/eo/src/eoFitnessStagnation.h") else "eo/src/eoContinue.h"],
  [("counters in operator()","eo/src/eoGenContinue.h")])
p("C11","Checkpoints run every observer once per generation, in order, and finalise",
  "At each checkpoint call every registered sorted statistic, statistic, updater and monitor is called exactly once with the current population, statistics before updaters before monitors, and every continuation criterion is consulted; the checkpoint answers continue iff all criteria do. When it answers stop, every observer receives its final call exactly once; statistics shown to monitors are those of the current population, and periodic updaters fire exactly at their period.",
  ["histories","configurations"],"all numbers and kinds of registered observers, all populations and all continue/stop histories",
  "Tests only check that a checkpoint can be built and run.",
  ["eo/src/utils/eoCheckPoint.h","eo/src/utils/eoStat.h","eo/src/utils/eoUpdater.h","eo/src/utils/eoMonitor.h","mo/src/continuator/moCheckpoint.h","eo/src/eoCountedFileMonitor.h" if os.path.exists("/repo/eo/src/eoCountedFileMonitor.h") else "eo/src/utils/eoFileMonitor.h"],
  [("ordered loops over observers","eo/src/utils/eoCheckPoint.h")])
p("C12","Population statistics report the population they are given",
  "Best, worst, n-th element, average, standard deviation, second-moment, fitness-interval and diversity statistics equal their mathematical definition on the current population, in the direction of optimisation and whatever the order of individuals, and computing them does not change the population. Sorting, shuffling, best and worst element queries of a population are consistent with the fitness order and preserve its members.",
  ["inputs"],"all populations: ties, single individual, minimising and maximising fitness, any order",
  "Tests run one small population.",
  ["eo/src/eoPop.h","eo/src/utils/eoStat.h","eo/src/utils/eoFDCStat.h","eo/src/utils/eoDistribUpdater.h" if os.path.exists("/repo/eo/src/utils/eoDistribUpdater.h") else "eo/src/utils/eoStat.h"],
  [("sort by fitness","eo/src/eoPop.h"),("statistics","eo/src/utils/eoStat.h")])
p("C13","Random streams are reproducible from seed and from saved state",
  "Re-seeding a generator with the same seed and forgetting its spare normal deviate, or restoring it from its printed state, makes every later draw of every kind identical to the original stream, wherever in the stream the state was saved. Integer draws are below their bound, uniform draws lie in their half-open range, a flip with probability 0 or 1 is certain, a roulette wheel never picks a zero-weight slot, and shuffles and random choices return members only.",
  ["inputs","histories","crash_points"],"all seeds, all save positions in the stream, all kinds of draws",
  "Tests check one seed and one save point.",
  ["eo/src/utils/eoRNG.h","eo/src/utils/eoRNG.cpp","eo/src/utils/rnd_generators.h","eo/src/utils/eoRndGenerators.h","eo/src/utils/eoUniformInit.h","eo/src/utils/eoRealBounds.h","eo/src/utils/eoRealVectorBounds.h","eo/src/utils/eoIntBounds.h"],
  [("Mersenne twister state","eo/src/utils/eoRNG.h"),("printOn/readFrom","eo/src/utils/eoRNG.h")])
p("C14","What is saved to a stream or state file is what is read back",
  "An individual, population, random generator or other registered object written as text (with enough digits) and read back into any other object of its kind is the same: genotype, strategy parameters, fitness or its invalidity, order and number, whatever the reading object held before and whatever is written before and after it. Loading a saved state restores every registered object exactly, ignores sections of objects that are not registered, accepts sections in any order, and leaves other objects alone.",
  ["inputs","histories"],"all genotypes, fitness types and values (incl. invalid, negative, many digits), empty objects, interleavings of writes and reads, registries and orders of sections",
  "Tests round-trip one object at best; equality of what is read back must hold for every content, for objects that already held something, and across restarts.",
  ["eo/src/utils/eoState.h","eo/src/utils/eoState.cpp","eo/src/EO.h","eo/src/eoPop.h","eo/src/eoVector.h","eo/src/ga/eoBit.h","eo/src/es/eoEsSimple.h","eo/src/es/eoEsStdev.h","eo/src/es/eoEsFull.h","eo/src/gp/eoParseTree.h","eo/src/other/eoString.h","eo/src/other/eoExternalEO.h","eo/src/eoDualFitness.h","eo/src/eoScalarFitness.h","eo/src/eoScalarFitnessAssembled.h","moeo/src/core/MOEO.h","moeo/src/core/moeoVector.h","moeo/src/core/moeoBitVector.h","moeo/src/core/moeoRealObjectiveVector.h","mo/src/problems/partition/moBinaryPartition.h","mo/src/problems/bitString/moBitNeighbor.h","eo/src/utils/eoRNG.h","eo/src/eoGenContinue.h"],
  [("printOn/readFrom pairs","eo/src/EO.h"),("section parsing","eo/src/utils/eoState.cpp")])
p("C17","Parameters take the value given, or keep their default",
  "A declared parameter takes the value given on the command line, else in the parameter file, else its default; for one name the last value given counts, options given later are followed, and comments and foreign sections never count. Help is required exactly when asked for, when a required parameter is missing or when an unknown name is given (unless that is allowed); a printed parameter set fed to another program gives the same values, and a parameter set from the text of a value has that value.",
  ["inputs","histories"],"all parameter types and texts, files and command lines, orders of declaration and reading, prefixes",
  "Tests parse a single command line with one value per type.",
  ["eo/src/utils/eoParser.h","eo/src/utils/eoParser.cpp","eo/src/utils/eoParam.h","eo/src/utils/eoHowMany.h"],
  [("option tables","eo/src/utils/eoParser.cpp"),("text conversion","eo/src/utils/eoParam.h")])
p("C15","Particle swarms remember the true bests and obey their bounds",
  "After every swarm update each particle's recorded best is the best position it has visited, with the fitness of that position, and each neighbourhood best is the best recorded best among that neighbourhood's members. A new velocity is the weighted old one plus attractions of at most the given strengths towards these bests, kept within the velocity bounds; a flight moves by the velocity within the position bounds and discards the old fitness. Every particle moves, is evaluated and updates the bests once per iteration, either all in step or one after another.",
  ["inputs","histories"],"all swarms, topologies, coefficients and fitness landscapes, minimising and maximising",
  "Tests only run a few iterations without checks.",
  ["eo/src/PO.h","eo/src/eoVectorParticle.h","eo/src/eoRealParticle.h","eo/src/eoBitParticle.h","eo/src/eoEasyPSO.h","eo/src/eoSyncEasyPSO.h","eo/src/eoStandardVelocity.h","eo/src/eoExtendedVelocity.h","eo/src/eoIntegerVelocity.h","eo/src/eoConstrictedVelocity.h","eo/src/eoFixedInertiaWeightedVelocity.h","eo/src/eoVariableInertiaWeightedVelocity.h","eo/src/eoConstrictedVariableWeightVelocity.h","eo/src/eoStandardFlight.h","eo/src/eoBinaryFlight.h","eo/src/eoSigBinaryFlight.h","eo/src/eoLinearTopology.h","eo/src/eoStarTopology.h","eo/src/eoRingTopology.h","eo/src/eoSocialNeighborhood.h","eo/src/eoInitializer.h","eo/src/eoParticleBestInit.h","eo/src/eoVelocityInit.h","eo/src/eoLinearDecreasingWeightUp.h","eo/src/eoRandomRealWeightUp.h","eo/src/eoRealBoundModifier.h"],
  [("memories and neighbourhood bests","eo/src/eoLinearTopology.h"),("velocity update","eo/src/eoStandardVelocity.h")])
p("C19","A run assembled from options behaves as the options say",
  "The algorithm built from command-line options selects parents with the distribution of the named selection, breeds the given number of offspring, keeps the survivors the named replacement, reductions and elitism would keep, and stops exactly when one of the given criteria holds. The variation built from options applies crossovers and mutations with the given probabilities and relative rates, the initial population has the given size and content, and impossible options are refused.",
  ["configurations","inputs"],"all combinations of selection, replacement, offspring, elitism, stopping and operator options on all populations",
  "Tests run the builders with default options only.",
  ["eo/src/do/make_algo_scalar.h","eo/src/do/make_algo_easea.h","eo/src/do/make_general_replacement.h","eo/src/do/make_continue.h","eo/src/do/make_pop.h","eo/src/do/make_run.h","eo/src/ga/make_op.h","eo/src/ga/make_genotype_ga.h","eo/src/es/make_op_real.h","eo/src/es/make_genotype_real.h","eo/src/utils/eoHowMany.h"],
  [("engine construction","eo/src/do/make_algo_scalar.h"),("operator construction","eo/src/es/make_op_real.h")])
p("C16","Foundries build exactly the configured algorithm and reject bad encodings",
  "Selecting operator indices in an algorithm foundry makes the resulting algorithm use exactly the operators stored at these indices with the parameters they were registered with, for every combination of indices and after any number of re-selections. Instantiating again gives the same behaviour, and the encoding of the current selection decodes to the same selection.",
  ["configurations","histories"],"all operator indices and all sequences of re-selections",
  "Tests try a few encodings.",
  ["eo/src/eoForge.h","eo/src/eoAlgoFoundry.h","eo/src/eoAlgoFoundryFastGA.h","eo/src/eoAlgoFoundryEA.h","eo/src/eoEvalFoundryEA.h"],
  [("lazy instantiation","eo/src/eoForge.h")])
p("C18","Variable-length variation keeps every atom and respects the size limits",
  "A crossover on variable-length genotypes redistributes the parents' atoms between the children, each atom exactly once, unchanged and in the parents' order; children respect the size limits, and when no allowed distribution is found the parents stay as they are and no change is reported. An insertion adds exactly one atom anywhere unless the maximum size is reached, a deletion removes exactly one chosen atom unless the minimum size is reached, and atom-wise mutation or exchange alters only the atoms its operator altered, at the announced rate or number.",
  ["inputs","configurations"],"all parent lengths (incl. empty), size limits satisfiable or not, rates and draws",
  "Tests apply one operator to one pair and print.",
  ["eo/src/eoVariableLengthCrossover.h","eo/src/eoVariableLengthMutation.h","eo/src/eoFlOrMonOp.h"],
  [("retry until sizes fit","eo/src/eoVariableLengthCrossover.h"),("insert/erase at drawn position","eo/src/eoVariableLengthMutation.h")])
# ---------------------------------------------------------------- MO
p("C20","Neighbourhood exploration visits each neighbour exactly once",
  "Ordered, random-without-replacement and bit/permutation-specific neighbourhoods enumerate every neighbour of their index space exactly once per initialisation and then report exhaustion; random-with-replacement neighbourhoods produce only valid indices. Re-initialising restarts the enumeration completely, whatever was explored before.",
  ["inputs","histories"],"all neighbourhood sizes (incl. 1), dimensions and interleavings of initialise/next/continue",
  "Tests check one size and a fixed call sequence.",
  ["mo/src/neighborhood/moOrderNeighborhood.h","mo/src/neighborhood/moRndWithoutReplNeighborhood.h","mo/src/neighborhood/moRndWithReplNeighborhood.h","mo/src/neighborhood/moEvaluatedNeighborhood.h","mo/src/problems/bitString/moBitsWithoutReplNeighborhood.h","mo/src/problems/bitString/moBitsWithReplNeighborhood.h","mo/src/problems/bitString/moBitFlipNeighborhood.h","mo/src/problems/permutation/moSwapNeighborhood.h","mo/src/problems/permutation/moTwoOptExNeighborhood.h","mo/src/problems/permutation/moIndexedSwapNeighbor.h","mo/src/problems/permutation/moShiftNeighbor.h","mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h"],
  [("index vector and swap-with-last","mo/src/neighborhood/moRndWithoutReplNeighborhood.h")])
p("C21","Neighbour evaluation predicts exactly the fitness after the move",
  "For every solution and neighbour, the fitness given by neighbour evaluation (by copy, by move and move-back, or incrementally) equals the full evaluation of the solution after applying the move, and evaluating a neighbour leaves the solution's content and fitness unchanged. Undoing a move restores the solution, and applying a neighbour and adopting its fitness leaves the solution's fitness true.",
  ["inputs"],"all solutions, neighbours and problem instances of the bundled problems",
  "Tests evaluate a few fixed neighbours.",
  ["mo/src/eval/moFullEvalByCopy.h","mo/src/eval/moFullEvalByModif.h","mo/src/eval/moDoubleIncrEvaluation.h","mo/src/problems/eval/moOneMaxIncrEval.h","mo/src/problems/eval/moRoyalRoadIncrEval.h","mo/src/problems/eval/moUBQPdoubleIncrEvaluation.h","mo/src/problems/eval/moMaxSATincrEval.h","mo/src/problems/eval/moQAPIncrEval.h","mo/src/problems/eval/moNKlandscapesIncrEval.h","mo/src/problems/eval/moUBQPSimpleIncrEval.h","mo/src/problems/eval/moUBQPBitsIncrEval.h","mo/src/problems/eval/moOneMaxBitsIncrEval.h","mo/src/problems/eval/moNKlandscapesBitsIncrEval.h","mo/src/problems/bitString/moBitNeighbor.h","mo/src/problems/bitString/moBitsNeighbor.h","mo/src/problems/permutation/moShiftNeighbor.h","mo/src/problems/permutation/moSwapNeighbor.h","mo/src/problems/permutation/moTwoOptExNeighbor.h","mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h","mo/src/eval/moEvalCounter.h"],
  [("delta evaluation","mo/src/problems/eval"),("move/moveBack","mo/src/problems/bitString/moBitNeighbor.h")])
p("C22","Hill climbers only climb and stop at a local optimum",
  "Every step of a hill climber moves to a neighbour that is strictly better than the current solution (for neutral and random-walk variants: never worse, respectively any neighbour), the best-improvement variants to one of the best neighbours, and the solution's fitness is always the true one. A hill climber that stops on its own has stopped in a solution none of whose neighbours is strictly better.",
  ["inputs","histories"],"all landscapes incl. plateaus, all start solutions, both optimisation directions",
  "Tests run one landscape and check at most the final value.",
  ["mo/src/algo/moLocalSearch.h","mo/src/explorer/moSimpleHCexplorer.h","mo/src/explorer/moFirstImprHCexplorer.h","mo/src/explorer/moRandomBestHCexplorer.h","mo/src/explorer/moNeutralHCexplorer.h","mo/src/explorer/moRandomSearchExplorer.h","mo/src/explorer/moRandomWalkExplorer.h","mo/src/explorer/moRandomNeutralWalkExplorer.h","mo/src/comparator/moSolNeighborComparator.h"],
  [("explorer accept/terminate","mo/src/explorer/moSimpleHCexplorer.h")])
p("C23","Tabu search takes no tabu move without aspiration and returns the best found",
  "A tabu list forbids a recorded solution or move exactly for its tenure (or list length) and not longer. Each tabu search step moves to the best neighbour among those not tabu or satisfying the aspiration criterion even when it is worse than the current solution, and the search ends with the best solution it ever visited.",
  ["inputs","histories"],"all landscapes, tenures, list sizes and run lengths",
  "Tests check a few insertions into a list.",
  ["mo/src/explorer/moTSexplorer.h","mo/src/memory/moSolVectorTabuList.h","mo/src/memory/moNeighborVectorTabuList.h","mo/src/memory/moIndexedVectorTabuList.h","mo/src/memory/moRndIndexedVectorTabuList.h","mo/src/memory/moBestImprAspiration.h","mo/src/algo/moTS.h"],
  [("check/add/update","mo/src/memory/moSolVectorTabuList.h")])
p("C24","Simulated annealing accepts improvements and cools as scheduled",
  "Simulated annealing and threshold/Metropolis acceptance always accept a strictly improving neighbour, accept a worsening one only as the current temperature allows (never at vanishing temperature), and report the true fitness of the current solution at every step. The temperature starts at its initial value, follows the cooling schedule's rule exactly, changes only when the schedule's span is reached, and the search stops when the schedule or the continuation criterion ends.",
  ["inputs","histories"],"all landscapes, schedules, spans, factors and acceptance histories",
  "Tests check one schedule for a few updates.",
  ["mo/src/explorer/moSAexplorer.h","mo/src/explorer/moMetropolisHastingExplorer.h","mo/src/explorer/moTAexplorer.h" if os.path.exists("/repo/mo/src/explorer/moTAexplorer.h") else "mo/src/algo/moSA.h","mo/src/coolingSchedule/moSimpleCoolingSchedule.h","mo/src/coolingSchedule/moDynSpanCoolingSchedule.h","mo/src/algo/moSA.h"],
  [("accept with exp(delta/T)","mo/src/explorer/moSAexplorer.h")])
p("C25","Iterated and variable-neighbourhood searches accept only as their criterion says",
  "In iterated local search and variable neighbourhood search each iteration perturbs the current solution, improves the perturbed copy with the given local search, and makes the result current iff the acceptance criterion holds between the old and the new solution; otherwise the old solution is kept unchanged. Variable neighbourhood selection visits the neighbourhood structures in the announced order, restarts from the first one after an accepted move (the very first iteration excepted), and stops after the last unless cyclic; it ends with the best solution found.",
  ["inputs","histories"],"all landscapes, perturbations, acceptance criteria, orders and histories",
  "Tests do one iteration on one landscape.",
  ["mo/src/explorer/moILSexplorer.h","mo/src/explorer/moVNSexplorer.h","mo/src/acceptCrit","mo/src/perturb","mo/src/neighborhood/moForwardVectorVNSelection.h","mo/src/neighborhood/moBackwardVectorVNSelection.h" if os.path.exists("/repo/mo/src/neighborhood/moBackwardVectorVNSelection.h") else "mo/src/neighborhood/moVectorVNSelection.h"],
  [("initParam/accept","mo/src/explorer/moILSexplorer.h")])
p("C26","Local search continuators and samplings follow their counts exactly",
  "Local search stopping criteria (iterations, evaluations, fitness target, no improvement, combinations) ask to stop exactly at their announced count or condition, and a local search performs exactly the number of iterations they allow. Landscape samplings record exactly one value per visited solution and the reported statistics equal their definition on the recorded values.",
  ["histories","configurations"],"all limits, combinations and fitness histories",
  "Tests use one limit.",
  ["mo/src/continuator/moIterContinuator.h","mo/src/continuator/moFitContinuator.h","mo/src/continuator/moFullEvalContinuator.h","mo/src/continuator/moNeighborEvalContinuator.h","mo/src/continuator/moCombinedContinuator.h","mo/src/continuator/moBestNoImproveContinuator.h" if os.path.exists("/repo/mo/src/continuator/moBestNoImproveContinuator.h") else "mo/src/continuator/moContinuator.h","mo/src/continuator/moCheckpoint.h","mo/src/continuator/moNeighborhoodStat.h","mo/src/sampling/moSampling.h","mo/src/sampling/moStatistics.h"],
  [("counters","mo/src/continuator/moIterContinuator.h")])
# ---------------------------------------------------------------- MOEO
p("C27","Benchmark problems evaluate to their published definition",
  "The bundled benchmark problems (OneMax, Royal Road, quadratic binary programming, MaxSAT, quadratic assignment, N-queens, NK landscapes and variants, long k-path) give every solution exactly the value of their definition on the given instance. Randomly generated instances have the announced shape, and an instance written to a file and read back evaluates every solution the same.",
  ["inputs"],"all instances and solutions",
  "No test evaluates these problems beyond one or two fixed solutions, and none reads an instance back.",
  ["problems/eval/oneMaxEval.h","problems/eval/royalRoadEval.h","problems/eval/ubqpEval.h","problems/eval/maxSATeval.h","problems/eval/qapEval.h","problems/eval/queenEval.h","problems/eval/nkLandscapesEval.h","problems/eval/nkpLandscapesEval.h","problems/eval/nkqLandscapesEval.h","problems/eval/longKPathEval.h"],
  [("evaluation functors","problems/eval"),("instance files","problems/eval/nkLandscapesEval.h")])
p("C28","Fitness kinds order solutions in the direction they declare",
  "For every kind of fitness (plain, maximised, minimised, with feasibility, assembled from terms) the comparisons form one strict weak order: better means larger or smaller as declared, a feasible solution is better than any infeasible one, and less, greater, less-or-equal and greater-or-equal agree with each other and between solutions. Sorting, best, worst and n-th of a population follow that order, arithmetic on fitnesses changes only its target and keeps feasibility only if both operands have it, and splitting by feasibility loses and duplicates nobody.",
  ["inputs","configurations"],"all fitness kinds, values and feasibilities, populations with ties",
  "Tests compare a few values of one kind; an order that fails on ties or on mixed feasibility passes them.",
  ["eo/src/eoScalarFitness.h","eo/src/eoDualFitness.h","eo/src/eoScalarFitnessAssembled.h","eo/src/eoScalarFitnessAssembled.cpp","eo/src/EO.h","eo/src/eoPop.h","eo/src/utils/eoFeasibleRatioStat.h","eo/src/utils/eoAssembledFitnessStat.h"],
  [("comparison operators","eo/src/eoDualFitness.h"),("population order","eo/src/eoPop.h")])
p("C29","Program trees stay well-formed and within their limits",
  "Whatever sequence of assignments, swaps, copies, prunings and variations is applied, every tree remains a complete expression (each node has exactly its number of arguments), its stored size, depth and parents are the true ones, and evaluation and the textual form agree with it. Crossover and mutations exchange or replace exactly one subtree (or node) and never exceed the size limit; initialisers respect the depth, fullness, node set and types asked for.",
  ["histories","inputs","configurations"],"all trees, histories of edits, node sets, depths, types and seeds",
  "Tests evolve one regression; stale sizes or a lost parent need a particular sequence of edits to show.",
  ["eo/src/gp/parse_tree.h","eo/src/gp/eoParseTree.h","eo/src/gp/eoParseTreeOp.h","eo/src/gp/eoParseTreeDepthInit.h","eo/src/gp/eoStParseTreeDepthInit.h","eo/src/gp/node_pool.h"],
  [("size and depth bookkeeping","eo/src/gp/parse_tree.h"),("subtree exchange and pruning","eo/src/gp/eoParseTreeOp.h")])
p("C30","Dominance comparisons agree with the definition of Pareto dominance",
  "For all objective vectors and any mix of minimised and maximised objectives, the Pareto comparator says 'dominated' iff the other vector is at least as good everywhere and better somewhere; the weak, strict and epsilon variants agree with their definitions. Hence dominance is irreflexive, asymmetric and transitive, and the fitness/diversity based comparators are strict weak orders.",
  ["inputs"],"all pairs and triples of objective vectors, all objective counts and directions",
  "Tests compare two or three hand-picked vectors.",
  ["moeo/src/comparator/moeoParetoObjectiveVectorComparator.h","moeo/src/comparator/moeoWeakObjectiveVectorComparator.h","moeo/src/comparator/moeoStrictObjectiveVectorComparator.h","moeo/src/comparator/moeoEpsilonObjectiveVectorComparator.h","moeo/src/core/moeoRealObjectiveVector.h","moeo/src/comparator/moeoFitnessThenDiversityComparator.h","moeo/src/comparator/moeoDiversityThenFitnessComparator.h"],
  [("per-objective comparison","moeo/src/comparator/moeoParetoObjectiveVectorComparator.h")])
p("C31","An unbounded archive is always the exact non-dominated set of what it was given",
  "After any sequence of insertions of solutions and populations, the archive's objective vectors are exactly the non-dominated vectors among all those ever submitted, without duplicates, each carried by a solution that was submitted with that vector. An insertion reports success iff the solution is in the archive afterwards, and membership, domination and equality queries answer accordingly.",
  ["inputs","histories"],"all insertion sequences, batch boundaries, duplicates, objective counts and directions, both replacement modes",
  "Tests insert six fixed solutions.",
  ["moeo/src/archive/moeoArchive.h","moeo/src/archive/moeoUnboundedArchive.h","moeo/src/utils/moeoArchiveUpdater.h"],
  [("remove dominated, then insert if not dominated","moeo/src/archive/moeoArchive.h")])
p("C32","Bounded archives respect their capacity and stay mutually non-dominated",
  "A bounded archive never exceeds its capacity, never holds two solutions one of which dominates the other, and holds only submitted solutions. A solution dominated by (or, where duplicates are refused, equal to) a member is never added and removes nothing, a solution that dominates members evicts all of them, and reduction to capacity drops solutions only when the capacity is exceeded and then keeps the best by the up-to-date fitness and diversity.",
  ["inputs","histories"],"all insertion sequences, capacities, objective counts and directions",
  "Tests insert a handful of solutions and check sizes.",
  ["moeo/src/archive/moeoBoundedArchive.h","moeo/src/archive/moeoImprOnlyBoundedArchive.h","moeo/src/archive/moeoFitDivBoundedArchive.h"],
  [("capacity check after update","moeo/src/archive/moeoFitDivBoundedArchive.h")])
p("C33","Dominance-based fitness ranks populations exactly by Pareto dominance",
  "Dominance-depth fitness orders individuals exactly by the index of their non-dominated front, dominance-rank and dominance-count fitness by the number of individuals dominating, respectively dominated, and the ranking sums accordingly, for every population and any mix of minimised and maximised objectives. Updating the fitness after deleting an individual equals assigning it afresh where the strategy promises so, and indicator-based fitness is the sum of the indicator losses.",
  ["inputs"],"all populations with ties and duplicates, two or more objectives, all directions",
  "Tests use one six-point population, minimised objectives only.",
  ["moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h","moeo/src/fitness/moeoDominanceRankFitnessAssignment.h","moeo/src/fitness/moeoDominanceCountFitnessAssignment.h","moeo/src/fitness/moeoDominanceCountRankingFitnessAssignment.h","moeo/src/utils/moeoDominanceMatrix.h","moeo/src/fitness/moeoExpBinaryIndicatorBasedFitnessAssignment.h"],
  [("two-objective sweep and m-objective peeling","moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h"),("dominance matrix","moeo/src/utils/moeoDominanceMatrix.h")])
p("C34","Diversity measures follow their definition on every population",
  "Crowding distance gives the extreme solutions of each objective the maximal value and every other solution the sum over objectives of the normalised gap between its neighbours (front by front where so named); sharing and nearest-neighbour diversity equal their definitions from the pairwise distances. The result does not depend on the order of individuals beyond ties, and the population's members and objective values are untouched.",
  ["inputs"],"all populations, incl. ties, equal objective values, one or two individuals",
  "Tests use a single population.",
  ["moeo/src/diversity/moeoCrowdingDiversityAssignment.h","moeo/src/diversity/moeoFrontByFrontCrowdingDiversityAssignment.h","moeo/src/diversity/moeoSharingDiversityAssignment.h","moeo/src/diversity/moeoFrontByFrontSharingDiversityAssignment.h","moeo/src/diversity/moeoNearestNeighborDiversityAssignment.h","moeo/src/distance/moeoEuclideanDistance.h"],
  [("sorted sweep per objective","moeo/src/diversity/moeoCrowdingDiversityAssignment.h")])
p("C35","Multi-objective replacement keeps the best-ranked; algorithms keep elites",
  "Elitist replacement returns exactly the parent-population size with the best solutions of parents and offspring by fitness then diversity, environmental replacement removes the worst one at a time re-updating fitness, generational replacement returns the offspring. Throughout a run of the bundled multi-objective algorithms the given variation operators are applied, every objective vector is true to its genotype, archives hold only evaluated solutions, the population size of generational algorithms is constant, and elitist algorithms never lose a non-dominated solution while keeping a dominated one. A full fixed-size archive offered further non-dominated solutions drops, one at a time, the one closest to its nearest neighbours.",
  ["inputs","configurations","histories"],"all parent/offspring populations, all bundled algorithms, seeds and generation histories",
  "Tests run one algorithm for a few generations without checks.",
  ["moeo/src/replacement/moeoElitistReplacement.h","moeo/src/replacement/moeoEnvironmentalReplacement.h","moeo/src/replacement/moeoGenerationalReplacement.h","moeo/src/algo/moeoNSGAII.h","moeo/src/algo/moeoNSGA.h","moeo/src/algo/moeoIBEA.h","moeo/src/algo/moeoMOGA.h","moeo/src/algo/moeoSPEA2.h","moeo/src/algo/moeoSEEA.h","moeo/src/algo/moeoASEEA.h","moeo/src/algo/moeoEasyEA.h","moeo/src/archive/moeoSPEA2Archive.h"],
  [("sort by fitness then diversity, resize","moeo/src/replacement/moeoElitistReplacement.h")])
p("C36","Dominance-based local search ends with an archive closed under its neighbourhood",
  "Dominance-based multi-objective local searches never lose a non-dominated solution they archived except to one dominating it, archive only truly evaluated solutions, and explore a solution at most once unless marked unvisited again. When one stops on its own every archived solution has been visited, and with exhaustive exploration no neighbour of an archived solution dominates or is incomparable to the whole archive.",
  ["inputs","histories"],"all problems, starting populations, neighbourhoods and explorers",
  "Tests run on toy problems and check sizes only.",
  ["moeo/src/algo/moeoUnifiedDominanceBasedLS.h","moeo/src/algo/moeoPLS1.h","moeo/src/algo/moeoPLS2.h","moeo/src/explorer/moeoExhaustiveNeighborhoodExplorer.h","moeo/src/explorer/moeoFirstImprovingNeighborhoodExplorer.h","moeo/src/explorer/moeoNoDesimprovingNeighborhoodExplorer.h","moeo/src/explorer/moeoSimpleSubNeighborhoodExplorer.h","moeo/src/selection/moeoExhaustiveUnvisitedSelect.h","moeo/src/selection/moeoNumberUnvisitedSelect.h"],
  [("visited flags and natural stop","moeo/src/algo/moeoUnifiedDominanceBasedLS.h")])
p("C37","Quality indicators equal their definition",
  "The hypervolume of a front equals the volume of the union of the boxes it dominates with respect to the reference point, is unchanged by adding dominated or duplicate points and by reordering; the additive and multiplicative epsilon indicators equal the smallest shift or factor that makes one front weakly dominate the other. The contribution metric counts follow from pairwise dominance.",
  ["inputs"],"all fronts, objective counts, directions and reference points",
  "Tests compute one value for a hand-picked front.",
  ["moeo/src/metric/moeoHyperVolumeMetric.h","moeo/src/metric/moeoHyperVolumeDifferenceMetric.h","moeo/src/metric/moeoAdditiveEpsilonBinaryMetric.h","moeo/src/metric/moeoVecVsVecAdditiveEpsilonBinaryMetric.h","moeo/src/metric/moeoVecVsVecMultiplicativeEpsilonBinaryMetric.h","moeo/src/metric/moeoContributionMetric.h","moeo/src/metric/moeoHypervolumeBinaryMetric.h"],
  [("recursive slicing","moeo/src/metric/moeoHyperVolumeMetric.h")])
# ---------------------------------------------------------------- EDO
p("C40","Distribution estimates match the sample; samples respect the bounds",
  "Estimators return exactly the mean, (co)variance, minimum, maximum or frequencies of the population they are given and leave it alone; samplers draw from the distribution they are given, and what a bounding or repairing operator is attached to satisfies it, with an invalid fitness. Repairers change only the coordinates that need it (or that they are dispatched to) according to their rule, centring a distribution moves its centre and nothing else, resetting it makes it new, and stopping rules on distributions stop exactly when one of them says so.",
  ["inputs","configurations"],"all populations, distributions (singular ones included), bounds, dispatch tables and seeds",
  "Tests run one estimator and compare distances loosely.",
  ["edo/src/edoEstimatorNormalMono.h","edo/src/edoEstimatorNormalMulti.h","edo/src/edoEstimatorUniform.h","edo/src/edoEstimatorBinomial.h","edo/src/edoEstimatorBinomialMulti.h","edo/src/edoEstimatorCombined.h","edo/src/edoSampler.h","edo/src/edoSamplerUniform.h","edo/src/edoSamplerNormalMono.h","edo/src/edoSamplerNormalMulti.h","edo/src/edoSamplerNormalAdaptive.h","edo/src/edoSamplerBinomial.h","edo/src/edoBounderBound.h","edo/src/edoBounderUniform.h","edo/src/edoBounderRng.h","edo/src/edoRepairerDispatcher.h","edo/src/edoRepairerRound.h","edo/src/edoRepairerModulo.h","edo/src/edoUniformCenter.h","edo/src/edoNormalMonoCenter.h","edo/src/edoNormalMultiCenter.h","edo/src/edoNormalAdaptive.h","edo/src/edoCombinedContinue.h","edo/src/edoContAdaptiveFinite.h","edo/src/edoContAdaptiveIllCovar.h","edo/src/utils/edoCheckPoint.h","edo/src/edoTransform.h"],
  [("repair after sample","edo/src/edoSampler.h"),("moments of the sample","edo/src/edoEstimatorNormalMulti.h")])
p("C41","Estimation-of-distribution runs sample only the latest estimate",
  "Each generation selects from the whole current population into an empty one, estimates a distribution from exactly what was selected, draws as many individuals from that distribution as the population holds, evaluates all of them before the replacement sees them, and hands the replacement's result to the next generation; the distribution the caller shares always holds the latest estimate. The run stops exactly when a stopping rule on the distribution (before sampling) or on the population (after replacement) says so, and the population returned is the last one formed, every individual evaluated.",
  ["histories","configurations"],"all operators, population sizes (also changing ones), stopping points, constructor variants and repeated runs",
  "Tests run one configuration for a few generations and only look at the final fitness.",
  ["edo/src/edoAlgoAdaptive.h","edo/src/edoAlgoStateless.h","edo/src/edoContinue.h","edo/src/edoCombinedContinue.h","edo/src/edoSampler.h","edo/src/edoEstimatorAdaptive.h"],
  [("generation loop","edo/src/edoAlgoAdaptive.h"),("owned distribution","edo/src/edoAlgoStateless.h")])
p("C42","Covariance matrix adaptation follows the ranked parents",
  "Learning from parents moves the sampling centre to their weighted mean by rank, the weights being as many as the parents, positive, never increasing, summing to one and following the requested scheme; step size and covariance follow their evolution paths (longer path, larger steps), the covariance stays symmetric and non-negative and equal to its decomposition. The result depends on the parents' ranks only, not on their order or fitness scale, it moves and stretches with the parents, a copied or reset state goes on exactly like the original or a new one, and breeding yields the requested number of unevaluated offspring without touching the parents.",
  ["histories","inputs","configurations"],"all parent histories, numbers of parents and offspring, weighting schemes, dimensions, both optimisation directions and all seeds",
  "Tests run one short optimisation and check nothing about what was learned.",
  ["eo/src/es/CMAParams.cpp","eo/src/es/CMAState.cpp","eo/src/es/eoCMABreed.h","eo/src/es/eoCMAInit.h","eo/src/es/eig.cpp","edo/src/edoEstimatorNormalAdaptive.h","edo/src/edoNormalAdaptive.h"],
  [("weights and rates","eo/src/es/CMAParams.cpp"),("mean, paths, covariance, step size","eo/src/es/CMAState.cpp"),("mean, paths, covariance, decomposition","edo/src/edoEstimatorNormalAdaptive.h")])
# ---------------------------------------------------------------- SMP / MPI
p("C50","Parallel evaluation handles every individual exactly once",
  "For any number of workers, population size and scheduling policy, a parallel apply calls the functor exactly once on each individual of the population, finishes only when all calls have returned, and leaves the order of individuals unchanged. A parallelised algorithm therefore produces the same evaluated population as the sequential one.",
  ["schedules","inputs","configurations"],"all thread schedules, worker counts, population sizes and policies, repeated use of one scheduler",
  "Tests run one population size on whatever schedule the machine gives.",
  ["smp/src/scheduler.h","smp/src/scheduler.cpp","smp/src/MWModel.h","smp/src/MWModel.cpp","smp/src/MWAlgo","eo/src/apply.h"],
  [("package split / progressive hand-over under per-worker lock","smp/src/scheduler.cpp")])
p("C51","Island migration delivers each emigrant to the neighbours the topology names",
  "Each time an island's migration criterion fires, copies of exactly the selected emigrants are delivered to exactly the islands the topology makes its neighbours, each is integrated once by the receiver's integration policy, and none is delivered elsewhere, lost or duplicated while islands are running. The emigrating island's own population is not changed by emigration, and the model stops only after all islands have.",
  ["schedules","configurations","histories"],"all thread schedules, topologies, numbers of islands and policies",
  "Tests run a few islands without looking at migrants.",
  ["smp/src/islandModel.h","smp/src/islandModel.cpp","smp/src/island.h","smp/src/island.cpp","smp/src/migPolicy.h","smp/src/intPolicy.h","smp/src/policyElement.h","smp/src/policyElement.cpp","smp/src/abstractIsland.h","smp/src/contWrapper.h","smp/src/contWrapper.cpp","smp/src/notifier.h","smp/src/islandNotifier.cpp","smp/src/islandModelWrapper.h"],
  [("message queues and topology lookup","smp/src/islandModel.cpp")])
p("C52","Topologies produce the neighbour sets of their graph and isolate cleanly",
  "Complete, ring, star, mesh, hypercube and custom topologies give every node exactly the neighbours of that graph for every admissible size, never the node itself and never an index out of range. Isolating a node removes it from all neighbour sets and leaves the others' mutual neighbourhoods as they were.",
  ["inputs","histories"],"all sizes, shapes and sequences of construct/isolate",
  "Tests check a few sizes.",
  ["smp/src/topology/topology.h","smp/src/topology/topology.cpp","smp/src/topology/ring.cpp","smp/src/topology/star.cpp","smp/src/topology/mesh.cpp","smp/src/topology/hypercubic.cpp","smp/src/topology/complete.cpp","smp/src/topology/customBooleanTopology.cpp","smp/src/topology/customStochasticTopology.cpp","smp/src/bimap.h","smp/src/bimap.cpp"],
  [("adjacency builder","smp/src/topology/topology.cpp")])
p("C53","Master/worker jobs process each task once and end all workers",
  "For any number of workers, packet size, assignment strategy and order of worker responses, a distributed apply processes every element exactly once and stores each result at the element's own index, and a multi-start returns exactly one result per requested run. Every worker receives its stop order exactly once at the end, so master and workers all terminate.",
  ["schedules","configurations"],"all response orders, worker counts, assignment algorithms, packet sizes and table sizes",
  "The MPI tests are not even built here; one run shows one response order.",
  ["eo/src/mpi/eoMpi.h","eo/src/mpi/eoMpiAssignmentAlgorithm.h","eo/src/mpi/eoMpiAssignmentAlgorithm.cpp","eo/src/mpi/eoParallelApply.h","eo/src/mpi/eoMultiStart.h","eo/src/mpi/eoTerminateJob.h","eo/src/mpi/implMpi.cpp","eo/src/eoPopEvalFunc.h"],
  [("master loop, worker loop","eo/src/mpi/eoMpi.h"),("assignment bookkeeping","eo/src/mpi/eoMpiAssignmentAlgorithm.cpp")])
p("C54","Serialized documents read back as what was packed",
  "Any nesting of objects, arrays, strings, numbers, containers and user-defined packable values, written as text and parsed again, unpacks to exactly the value that was packed, whatever characters its strings and keys contain. Blanks and line breaks between the parts of a text do not change what is read.",
  ["inputs"],"all documents: nesting, empty parts, strings and keys of any characters, all numbers of each type",
  "Tests read back a few hand-written values without special characters.",
  ["eo/src/serial/Utils.h","eo/src/serial/Parser.cpp","eo/src/serial/SerialString.cpp","eo/src/serial/SerialObject.cpp","eo/src/serial/SerialArray.cpp","eo/src/serial/SerialString.h","eo/src/serial/SerialArray.h"],
  [("recursive descent on text","eo/src/serial/Parser.cpp"),("packing helpers","eo/src/serial/Utils.h")])

if __name__ == "__main__":
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        for f in q["anchors"]["files"]:
            if not os.path.exists("/repo/"+f): print("missing anchor", q["id"], f)
    with open("/verif/properties.jsonl","w") as f:
        for q in P: f.write(json.dumps(q)+"\n")
    print(len(P),"properties")
