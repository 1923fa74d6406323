import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="gegelatilib/src/"; I="gegelatilib/include/"
p("L01","Training is reproducible and independent of the number of threads",
 "For a given seed, parameters, instruction set and environment, training and evaluation give identical outcomes — scores, graph, programs, archive contents and the state of the random generator — however many threads are used, however those threads are scheduled, whatever memory addresses objects get, and when the agent is re-initialised with the same seed in the same process. The sequential agent and the parallel agent with the same settings are equivalent in this sense.",
 ["schedules","configurations","histories"],"all thread counts, thread schedules and allocator layouts; all parameter sets, environments and numbers of generations",
 "tests compare two thread counts on one toy environment and one seed for a few generations; schedules, allocation layouts, re-initialisation and parameter mixes are not sampled",
 [S+"learn/learningAgent.cpp",S+"learn/parallelLearningAgent.cpp",S+"learn/adversarialLearningAgent.cpp",S+"mutator/tpgMutator.cpp",S+"archive.cpp"],
 [("per-job archive seeds drawn in root order before dispatch",S+"learn/learningAgent.cpp makeJobs"),("results and archives merged in job-index order",S+"learn/parallelLearningAgent.cpp mergeArchiveMap"),("per-program seeds drawn before dispatching mutations",S+"mutator/tpgMutator.cpp mutateNewProgramBehaviors")],
 ["evaluateAllRoots","trainOneGeneration","getArchive","getTPGGraph","getRNG"])
p("L02","Parallel training is free of data races",
 "While several threads evaluate policies or mutate programs, no memory location is accessed concurrently by two threads with at least one write and no ordering between them. This holds for the plain parallel, adversarial and classification agents, with any mix of data sources, array-typed operands, program constants, instrumentation and archiving.",
 ["schedules","configurations"],"all interleavings of worker threads over all kinds of agent, data source and operand type",
 "the test-suite is never run under a race detector and a race seldom changes a result a test looks at",
 [S+"learn/parallelLearningAgent.cpp",S+"mutator/tpgMutator.cpp",I+"data/arrayWrapper.h",I+"data/array2DWrapper.h",S+"data/dataHandler.cpp"],
 [("mutexes around the job queue, the result map and the archive map",S+"learn/parallelLearningAgent.cpp slaveEvalJobThread"),("private clone of the learning environment per worker",S+"learn/parallelLearningAgent.cpp slaveEvalJobThread"),("mutex around the queue of programs to mutate",S+"mutator/tpgMutator.cpp")])
p("L03","A policy's score is the exact mean of its evaluations and is never recomputed",
 "The score recorded for a policy is the arithmetic mean of the scores of all its iterations, over all the generations in which it was evaluated, together with the exact number of those iterations; every iteration resets the environment with a seed that depends only on generation and iteration, feeds it at most the permitted number of actions and stops when it is terminal. A policy evaluated at least the maximum number of times keeps its result and is not run again in training, and validation or testing always runs and never reads or changes training records, the archive or the random generator. Evaluating a vertex that is not in the graph is refused.",
 ["inputs","histories","configurations"],"all environments, modes, iteration counts, action limits and sequences of generations",
 "tests check one environment with a constant score; accumulation over generations, skip thresholds and mode isolation are only touched in isolation",
 [S+"learn/learningAgent.cpp",S+"learn/evaluationResult.cpp",S+"learn/job.cpp"],
 [("weighted accumulation of results",S+"learn/evaluationResult.cpp operator+="),("skip when enough evaluations were done",S+"learn/learningAgent.cpp isRootEvalSkipped"),("archive only given to the engine in training mode",S+"learn/learningAgent.cpp evaluateAllRoots")],
 ["LearningEnvironment::reset/doAction/getScore","evaluateAllRoots","evaluateOneRoot"])
p("L04","Selection removes exactly the worst root teams and tracks the best policy",
 "After each generation the roots removed are the lowest-scoring root teams, exactly as many as the deletion ratio asks for when that many exist; root actions are never removed, and the results handed on are exactly those of the surviving roots. The reported best policy is a policy of the current graph that either kept the title or is the best survivor and replaced one that vanished or scored lower, its score is the one recorded for it, and keeping only the best policy leaves exactly the vertices it can reach.",
 ["histories","configurations"],"all score assignments (ties, negative, infinite), ratios from 0 to 1, numbers of roots and root actions, and sequences of generations",
 "tests decimate a handful of graphs with distinct hand-made scores and one ratio",
 [S+"learn/learningAgent.cpp"],[("removal in ascending score order, actions preserved",S+"learn/learningAgent.cpp decimateWorstRoots"),("best root replacement rules",S+"learn/learningAgent.cpp updateEvaluationRecords"),("pruning",S+"learn/learningAgent.cpp keepBestPolicy")],
 ["trainOneGeneration","decimateWorstRoots","getBestRoot","getBestScoreLastGen","keepBestPolicy"])
p("L05","Adversarial matches are fair, complete and correctly attributed",
 "In an adversarial evaluation every root plays the same number of matches, once at every seat of every team of champions, agents act in strict turn order, the environment is told the mode, iteration and generation of every match, and each root's recorded score is the mean of the scores it obtained itself at the seats it was studied in. Results combine as means weighted by their numbers of evaluations, seat by seat. Champions are always roots of the current graph and, after an evaluation, exactly the best-scoring share of the roots.",
 ["inputs","configurations","histories"],"all numbers of agents per match, roots, iterations, deletion ratios and generations",
 "tests use a 3-agent toy environment with one parameter set and look at totals",
 [S+"learn/adversarialLearningAgent.cpp",S+"learn/adversarialEvaluationResult.cpp",S+"learn/adversarialJob.cpp"],
 [("job creation with each root at each seat",S+"learn/adversarialLearningAgent.cpp makeJobs"),("score gathering per studied seat",S+"learn/adversarialLearningAgent.cpp evaluateAllRootsInParallelCompileResults")],
 ["makeJobs","evaluateJob","evaluateAllRoots"])
p("L06","Classification scores are per-class F1 scores and the best of each class survive",
 "The score of a classifier is, per class, the mean over iterations of the F1 score of its confusion table (0 when there is no true positive), its global score is the mean over classes, results accumulate over generations weighted by the number of evaluations, and they are always finite; the environment is told the mode, iteration and generation of every run. Decimation keeps, when enough roots survive, the same number of best-scoring roots for every class, completes with the best global scores, and never removes more roots than the deletion ratio allows or any root action.",
 ["inputs","configurations","histories"],"all confusion tables (empty classes, single class, perfect), numbers of classes, roots and ratios",
 "tests use one fixed environment and one decimation scenario",
 [I+"learn/classificationLearningAgent.h",S+"learn/classificationEvaluationResult.cpp",S+"learn/classificationLearningEnvironment.cpp"],
 [("F1 computation",I+"learn/classificationLearningAgent.h evaluateJob"),("per-class preservation",I+"learn/classificationLearningAgent.h decimateWorstRoots"),("per-class weighted sum",S+"learn/classificationEvaluationResult.cpp operator+=")])
p("G01","The graph stays consistent under any sequence of operations",
 "After any sequence of additions, clonings, removals, re-targeting, clearing and moving, the graph contains exactly the vertices and edges the operations imply; each edge is listed exactly once by its source and once by its destination, joins vertices of the graph, and keeps its program; and the roots are exactly the vertices without incoming edge. An operation that is refused reports it and leaves the graph unchanged, and a moved or assigned-to graph is fully usable.",
 ["histories"],"all interleavings of graph operations, including invalid ones",
 "tests exercise each operation once or twice on graphs of a few vertices",
 [S+"tpg/tpgGraph.cpp",I+"tpg/tpgGraph.h",S+"tpg/tpgVertex.cpp",S+"tpg/tpgEdge.cpp"],
 [("both endpoint lists updated with the edge list",S+"tpg/tpgGraph.cpp")],["getVertices","getEdges","getRootVertices","getIncomingEdges","getOutgoingEdges"])
p("G02","Populating the graph keeps it acyclic, bounded and non-destructive",
 "Initialising or populating a graph yields an acyclic graph whose number of roots reaches the target, where every new team has at least two and at most the permitted number of outgoing edges and refers only to vertices that existed before, and where a re-targeted edge goes to an action or to a team as drawn with the configured probability. A mutated team loses, then gains, at least one edge where the bounds allow it: no more when the probability of doing so is 0, as many as the bounds allow when it is 1. Initialisation creates one team per action and twice as many programs as actions, each program leading to one action wherever it is used. Existing teams, edges, programs and actions are left exactly as they were, and population succeeds for every valid parameter set (edges per new team from 2 to the smaller of the number of actions and the permitted maximum, a non-zero probability of changing programs).",
 ["inputs","configurations","histories"],"all valid mutation parameters, seeds, and graphs reached by generations of training, including ones with few surviving teams",
 "tests run populate on one or two graphs with fixed seeds and check counts",
 [S+"mutator/tpgMutator.cpp"],[("mutation only targets pre-existing vertices",S+"mutator/tpgMutator.cpp mutateEdgeDestination, addRandomEdge"),("population loop",S+"mutator/tpgMutator.cpp populateTPG")],["TPGMutator::initRandomTPG","TPGMutator::populateTPG","TPGMutator::mutateEdgeDestination"])
p("M01","Mutated programs are always executable, within bounds, and really mutated",
 "Every program produced by random initialisation or by any number of mutations has between one and the maximum number of lines, lines whose instruction, destination and operands are valid for the environment with operand types the chosen data sources can provide, constants within the configured range, and up-to-date dead-line marks, so it executes without error on any data. A mutation reported as done changes at most one line, one pair of positions, one insertion, one deletion and one constant; a mutation reported as not done changes nothing; over many mutations every alternative value of every field is reachable, and positions (of lines, of swapped pairs, of constants) are drawn with equal chances.",
 ["inputs","configurations"],"all environments (mixes of data types, array operands, numbers of registers, constants and instructions), parameters and seeds",
 "tests mutate one environment with a dozen seeds and pin the outcomes",
 [S+"mutator/programMutator.cpp",S+"mutator/lineMutator.cpp",S+"environment.cpp"],
 [("operand selection restricted to data sources handling the type",S+"mutator/lineMutator.cpp initRandomCorrectLineOperand"),("size guards",S+"mutator/programMutator.cpp mutateProgram")],["ProgramMutator","LineMutator"])
p("M02","Mutation yields programs whose behaviour is new to the archive",
 "After the programs created by a population step have been mutated, none of them has the behaviour of an archived program: evaluated on the archived data, there is no archived program all of whose archived bids (on at least one) it reproduces within the tolerance (a result that is not finite never counts as reproduced). When behaviour change is enforced, the mutated program is also not line-for-line equivalent to its parent once dead lines are ignored.",
 ["inputs","configurations","histories"],"all archives produced by training, programs, seeds and parameters",
 "tests only check that the mutation function returns, not the post-condition on many archives",
 [S+"mutator/tpgMutator.cpp",S+"archive.cpp",S+"program/program.cpp"],
 [("mutate-until-unique loop",S+"mutator/tpgMutator.cpp mutateProgramBehaviorAgainstArchive")],["mutateProgramBehaviorAgainstArchive","populateTPG"])
p("R01","Random draws are in range, reproducible and identical on every platform",
 "Every draw lies within the requested inclusive bounds, for every pair of bounds of every supported type; a generator copied or re-seeded replays the same sequence, and the sequence is the platform-independent one defined by the 64-bit Mersenne twister and unbiased range reduction. Draws are uniform: every value of a small range occurs, with the expected frequency.",
 ["inputs","histories"],"all seeds, bounds (extreme, equal, signed, full-range) and interleavings of draw types and copies",
 "tests check a few pinned draws",
 [S+"mutator/rng.cpp",I+"mutator/rng.h",I+"mutator/deterministicRandom.h"],[("unbiased range reduction",I+"mutator/deterministicRandom.h _Rng_from_urng")],["RNG::getUnsignedInt64","RNG::getInt32","RNG::getDouble"])
p("P01","Executing a program computes exactly what its lines say",
 "Executing a program from zeroed registers applies its non-dead lines in order, each reading its operands — registers, the program's own constants, data sources, scalars, one- or two-dimensional slices — at the line's location modulo the address space of the type, writing one register, and returns register 0. The result depends only on the program, its constants and the current data: never on previous executions, other programs run by the same engine, or which equivalent data sources were attached before; a program made for other data sources is refused. Lines that cannot be read (unknown instruction or data source) are skipped on request and otherwise end the execution with an exception, without effect on later executions; a program without lines returns 0.",
 ["inputs","programs","histories"],"all valid programs, environments, data contents (NaN, infinities, extremes) and sequences of use of one engine",
 "tests execute a couple of two-line programs",
 [S+"program/programEngine.cpp",S+"program/programExecutionEngine.cpp",I+"program/programEngine.h",I+"instructions/lambdaInstruction.h",I+"data/arrayWrapper.h",I+"data/array2DWrapper.h"],
 [("register reset",S+"program/programExecutionEngine.cpp executeProgram"),("location scaling",S+"data/dataHandler.cpp scaleLocation")],["ProgramExecutionEngine::executeProgram"])
p("P02","Dead-line removal and behavioural identity are sound",
 "Lines marked as dead are exactly those that a backward liveness analysis from register 0 finds unable to affect the result, so erasing or executing them never changes what the program returns on any data. Two programs reported as behaviourally identical return the same result on every input, a program is identical to its copy, and inserting or deleting dead lines preserves identity.",
 ["inputs","programs"],"all programs (including operands spanning several registers) and all data",
 "tests mark one hand-written program",
 [S+"program/program.cpp"],[("backward scan",S+"program/program.cpp identifyIntrons"),("line and constant comparison",S+"program/program.cpp hasIdenticalBehavior")],["Program::identifyIntrons","clearIntrons","hasIdenticalBehavior"])
p("E01","A policy always follows the highest bid down to an action",
 "Executing a policy from a root visits a path of the graph that starts at the root and ends at an action, taking at every team an edge whose bid is maximal among all its edges, a bid that is not a number counting as minus infinity and the last of equal bids winning. Execution does not modify graph, programs or data, evaluates every edge of every visited team once, and repeating it on unchanged data gives the same path; a team without edges is refused with an exception.",
 ["inputs","programs"],"all acyclic graphs, programs, data and bid patterns (ties, NaN, infinities)",
 "tests run one small graph with constant bids",
 [S+"tpg/tpgExecutionEngine.cpp",S+"tpg/instrumented/tpgExecutionEngineInstrumented.cpp"],[("bid comparison",S+"tpg/tpgExecutionEngine.cpp evaluateTeam")],["executeFromRoot","evaluateTeam","evaluateEdge"])
p("A01","The archive is a bounded, exact and self-contained record of recent bids",
 "The archive holds exactly the most recent recordings accepted, in order and never more than its capacity, with the data each one was made on preserved unchanged whatever happens later to the live data; data is kept exactly as long as some recording needs it. Acceptance follows the configured probability with the seeded generator, and the uniqueness query answers exactly by comparing a candidate with every archived program on the data both were evaluated on (a result that is not finite never counts as reproduced).",
 ["histories","inputs"],"all sequences of recordings, mutations of live data, capacities, probabilities, re-seedings and clears",
 "tests add a few recordings to an archive of size 4",
 [S+"archive.cpp",I+"archive.h"],[("FIFO eviction and reference scan",S+"archive.cpp addRecording"),("per-program comparison",S+"archive.cpp areProgramResultsUnique")],["Archive::at","getDataHandlers","areProgramResultsUnique"])
p("D01","Data sources serve exactly the addressable data of each type",
 "For every data source, type and address, a read succeeds (in builds with the library's checks on) exactly when the source declares the type and the address is within the address space it declares; it returns the very elements listed as accessed, laid out as the type requires, and the declared address space is the number of positions at which such a scalar, row or block fits. Scaled locations always fall inside the address space.",
 ["inputs"],"all shapes of source and of requested array types, all addresses, shared wrappers re-pointed to other containers",
 "tests probe a few addresses of one or two shapes",
 [I+"data/arrayWrapper.h",I+"data/array2DWrapper.h",I+"data/pointerWrapper.h",I+"data/primitiveTypeArray.h",I+"data/primitiveTypeArray2D.h",S+"data/dataHandler.cpp"],
 [("address space by type",I+"data/arrayWrapper.h getAddressSpace"),("2D addressing",I+"data/array2DWrapper.h getDataAt")],["getDataAt","getAddressSpace","getAddressesAccessed","canHandle"])
p("D02","Copies of data are isolated and hashes always reflect the current contents",
 "A clone or copy of a data source (a wrapper being attached to data) has the same contents, hash and identity, and later changes to either are invisible to the other. After any change made through the source's own operations the hash equals that of a fresh source with the same identity and contents, equal contents always give equal hashes, and changing an element, its position or the identity changes the hash except by collision.",
 ["histories","inputs"],"all sequences of writes, resets, assignments, re-pointings, clones and hash reads in any order",
 "tests write once and compare one hash",
 [I+"data/primitiveTypeArray.h",I+"data/primitiveTypeArray2D.h",I+"data/arrayWrapper.h",I+"data/pointerWrapper.h",I+"data/hash.h"],
 [("cached hash invalidation",I+"data/primitiveTypeArray.h"),("deep copies",I+"data/arrayWrapper.h clone")],["getHash","clone","operator="])
p("V01","The environment admits exactly the usable instructions and only valid lines",
 "An environment keeps, in order, exactly the given instructions for which every operand type can be provided by some data source, the registers or the constants; it reports the exact numbers of instructions, operands, sources and the largest address space, and the number of bits needed for each field of a line. A program line accepts a field value exactly when it is below the corresponding count, refuses others without changing, and lines compare equal exactly when all their fields are equal; an instruction accepts arguments exactly when their number and types are those of its operands; an environment in which no program can be written is refused.",
 ["inputs","configurations"],"all instruction sets and sets of data sources",
 "tests build two or three environments",
 [S+"environment.cpp",S+"program/line.cpp",S+"instructions/set.cpp",S+"instructions/instruction.cpp"],
 [("instruction filtering",S+"environment.cpp filterInstructionSet"),("checked setters",S+"program/line.cpp")],["Environment","Line::set*"])
p("C01","Generated C code behaves exactly like the engine",
 "For every policy graph and instruction set with print templates, the C code generated in either mode compiles, and for any data, started from any root and called any number of times in a row, chooses the same action as the execution engine. A policy using an instruction without template, or a destination that cannot be written, is refused with an exception.",
 ["programs","inputs"],"all graphs, programs, constants, array operands on one- and two-dimensional data of any shape, and input data",
 "tests compile a few hand-built graphs and compare on fixed data",
 [S+"codeGen/programGenerationEngine.cpp",S+"codeGen/tpgGenerationEngine.cpp",S+"codeGen/tpgSwitchGenerationEngine.cpp",S+"codeGen/tpgStackGenerationEngine.cpp",S+"data/dataHandlerPrinter.cpp"],
 [("line template expansion",S+"codeGen/programGenerationEngine.cpp completeFormat"),("operand printing",S+"data/dataHandlerPrinter.cpp"),("bid comparison",S+"codeGen/tpgSwitchGenerationEngine.cpp")],["TPGSwitchGenerationEngine::generateTPGGraph","TPGStackGenerationEngine::generateTPGGraph"])
p("F01","Exporting a graph and importing it back preserves the policies",
 "Importing an exported graph into a compatible environment yields a graph with the same teams, edges, sharing of programs, program lines, constants and action identifiers, hence the same behaviour from every root on all data, and exporting it again gives the same description (unless several actions had one identifier, which become one); this holds for a whole graph, for the sub-graph of one root, and whatever the graph held before. Exporting never changes the graph, and a file that cannot be read is reported.",
 ["programs","inputs","histories"],"all graphs (deep, shared programs, root actions, long programs, negative constants) and sequences of exports and imports",
 "tests round-trip one toy graph and compare counts",
 [S+"file/tpgGraphDotExporter.cpp",S+"file/tpgGraphDotImporter.cpp"],[("exporter",S+"file/tpgGraphDotExporter.cpp"),("line-oriented parser",S+"file/tpgGraphDotImporter.cpp")],["TPGGraphDotExporter::print","printSubGraph","TPGGraphDotImporter::importGraph"])
p("F02","Parameters survive a write and read round trip exactly",
 "Writing any set of learning parameters to a file and loading it back restores every parameter (fractions to the six significant digits that are written, all others exactly); loading a file that sets only some parameters changes those and no other, ignores comments and unknown names, and a missing or malformed file leaves all parameters unchanged.",
 ["inputs","configurations"],"all parameter values and all subsets of parameters in the file",
 "tests load one file and compare a fixed list",
 [S+"file/parametersParser.cpp",I+"learn/learningParameters.h",I+"mutator/mutationParameters.h"],[("reader",S+"file/parametersParser.cpp setParameterFromString"),("writer",S+"file/parametersParser.cpp writeParametersToJson")],["loadParametersFromJson","writeParametersToJson"])
p("I01","Instrumentation counts exactly what was executed and changes nothing",
 "After any number of executions with instrumented vertices, every visit, edge evaluation and traversal counter and every recorded trace equals what actually happened, counters reset to zero exactly when asked, and behaviour is identical to the plain engine. The statistics derived from traces and counters equal the values recomputed from the recorded history, the lines of an evaluated program being all its lines, dead ones included.",
 ["histories","programs"],"all graphs, input sequences, interleavings of execution, reset and analysis, and parallel execution",
 "tests count a handful of executions of one graph",
 [S+"tpg/instrumented/tpgExecutionEngineInstrumented.cpp",S+"tpg/instrumented/executionStats.cpp",S+"tpg/instrumented/tpgEdgeInstrumented.cpp",S+"tpg/instrumented/tpgVertexInstrumentation.cpp",S+"tpg/instrumented/tpgInstrumentedFactory.cpp"],
 [("atomic counters",I+"tpg/instrumented/tpgEdgeInstrumented.h"),("trace history",S+"tpg/instrumented/tpgExecutionEngineInstrumented.cpp")],["getTraceHistory","getNbVisits","getNbTraversal","ExecutionStats::analyzeExecution"])
p("I02","Policy statistics equal the facts of the policy",
 "The statistics computed for a policy — uses of each program, team, action, instruction and data location, lines and dead lines per program, edges per team, depth and vertices per depth — equal those obtained by directly walking the policy, each distinct program being analysed once; clearing makes the next analysis independent of previous ones, and the text written for the user tells the same numbers.",
 ["programs","histories"],"all policies and sequences of analyses",
 "tests analyse one hand-built policy",
 [S+"tpg/policyStats.cpp"],[("breadth-first walk",S+"tpg/policyStats.cpp analyzePolicy")],["PolicyStats"])
p("O01","Logs report the true course of the training",
 "For every generation the log contains one row with the generation number, the number of vertices after populating and the minimum, mean and maximum scores of that generation's evaluation and, when enabled, validation (to the two decimals written, in columns that can be told apart), and the durations of the phases; hooks fire once per phase in the fixed order with the true results; policy statistics are logged exactly when the best policy changed; and the cycle monitor reports a cycle if and only if the graph has one. Attaching loggers never changes the outcome of training. A whole training runs the configured generations in order, from 0, none after it was asked to stop, and returns how many it ran.",
 ["histories","configurations","programs"],"all trainings, with or without validation, several loggers, and all graphs",
 "tests call the logger methods by hand with made-up results",
 [S+"log/laBasicLogger.cpp",S+"log/laPolicyStatsLogger.cpp",S+"log/cycleDetectionLALogger.cpp",S+"log/laLogger.cpp",S+"learn/learningAgent.cpp"],
 [("logger hooks",S+"learn/learningAgent.cpp trainOneGeneration"),("cycle search",S+"log/cycleDetectionLALogger.cpp")],["LALogger callbacks"])
p("S01","No memory error, leak or undefined behaviour in any use of the library",
 "Whatever valid sequence of library operations a program performs — training with any agent, re-initialising, pruning to the best policy, exporting, importing (damaged files included), generating code, analysing, destroying — the library never accesses memory outside live objects, never executes undefined behaviour and releases all the memory it allocated.",
 ["histories","configurations","inputs"],"all valid sequences of operations, parameters and environments",
 "the test-suite is built without sanitizers and never composes the components into whole life cycles",
 [S+"learn/learningAgent.cpp",S+"learn/adversarialLearningAgent.cpp",S+"tpg/tpgGraph.cpp",S+"archive.cpp",I+"data/arrayWrapper.h",I+"data/untypedSharedPtr.h",S+"file/tpgGraphDotImporter.cpp"],
 [("ownership by the graph and the archive",S+"tpg/tpgGraph.cpp, "+S+"archive.cpp"),("checked container access",S+"program/line.cpp")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=len([s for s in re.split(r'(?<=[.!?])\s+',x['statement']) if s])
    if n>3: print(x['id'],n)
print(len(P))
