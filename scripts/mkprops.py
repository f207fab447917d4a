import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
ALG=["algorithm/modifiedgenetic.go","algorithm/simple.go"]
p("C01","Every fitness is that of the member's own points",
 "In every generation, the fitness the optimiser obtains for a member equals, up to floating-point rounding, the fitness a brand-new evaluator computes from scratch for exactly that member's points on the target image. This holds for triangle and for polygon targets and for both algorithms, whatever the interleaving of the evaluation workers and whatever was cached, reused, copied or carried over from earlier generations.",
 ["schedules","histories","configurations"],
 "all worker schedules, generations, population/cutoff/point counts, image sizes up to 8191 pixels a side (positions have 16 bits) and block sizes, cache sizes, mutation histories",
 "The only fitness test evaluates one fresh point group once; no test runs a second generation, a mutation, a base, a cache hit or more than one worker.",
 ALG+["algorithm/evaluator/parallel.go","fitness/triangles.go","fitness/polygons.go","fitness/cache.go","fitness/pixels.go","triangulation/incrdelaunay/delaunay.go","triangulation/incrdelaunay/voronoi.go","triangulation/incrdelaunay/grid.go","triangulation/incrdelaunay/pointmap.go","triangulation/incrdelaunay/polygonmap.go"],
 [("incremental re-evaluation from a base plus mutations","fitness/triangles.go:Calculate, fitness/polygons.go:Calculate"),("evaluators follow their member when the population is sorted","algorithm/evaluator/parallel.go:Swap"),("per-generation double-buffered cache","algorithm/evaluator/parallel.go:Prepare/Update"),("incremental Delaunay/Voronoi insert, remove and copy","triangulation/incrdelaunay")],
 ["evaluator.Evaluator.Get(i).Calculate result, compared with a fresh fitness function on the same points"],
 [("triangulation/base","geometry carried from generation to generation per member","fitness/triangles.go"),("cache/nextCache","shared cost cache","algorithm/evaluator/parallel.go")])
p("C02","The best result is real and never gets worse",
 "After construction and after every step, the reported best fitness is the highest fitness obtained by any member evaluated in that generation, the reported best points are those of a member that has that fitness, and the best fitness never decreases from one step to the next. This holds for both algorithms, for any worker schedule and on any fitness scale, including negative and zero fitnesses and point groups too small or too degenerate to cover any of the image.",
 ["schedules","histories","configurations"],
 "all schedules, fitness functions, point counts from 1 up, populations larger than the cutoff (at least twice the cutoff for the modified genetic algorithm, which keeps room for combinations)",
 "No test steps an algorithm at all (the only file in package algorithm is a benchmark that is never run).",
 ALG,[("sort by fitness then copy the first member","algorithm/*.go:updateFitnesses"),("elitism: bases are copied unmutated","algorithm/*.go:newGeneration"),("unused combination slots are ranked out","algorithm/modifiedgenetic.go:combineMutations")],
 ["Algorithm.Best()","Algorithm.Stats().BestFitness","fitnesses returned through evaluator.Evaluator"],
 [("fitnesses","fitness per member","algorithm/modifiedgenetic.go")])
p("C03","Each generation keeps exactly the fittest members, unchanged",
 "The members that survive into the next generation unmodified are the fittest ones of everything evaluated in the generation before it, as many as the cutoff says (ties may go either way). Which of them survive does not depend on the order in which workers deliver their results.",
 ["schedules","histories","configurations"],
 "all result-delivery orders, cutoff sizes, populations larger than the cutoff (at least twice the cutoff for the modified genetic algorithm), fitness landscapes with and without ties",
 "Tests never run a generation; selection over results that arrive in an arbitrary order needs control of the worker schedule.",
 ALG,[("fitness results are attributed by member index","algorithm/*.go:calculateFitnesses"),("sort keeps fitness, points and evaluator together","algorithm/*.go:Swap"),("cutoff copy","algorithm/*.go:newGeneration")],
 ["points and mutations passed to fitness.Function.Calculate in consecutive generations"])
p("C04","Combining keeps the best beneficial mutation of every point",
 "In the modified genetic algorithm, every base that has at least one strictly better mutated child in a generation gets exactly one extra member: the base with, for every point touched by any of its better children, the mutation of the fittest child that touched it, and nothing else changed; a base without a better child gets none. The outcome does not depend on the order in which workers deliver their results (equal fitnesses may be resolved either way).",
 ["schedules","histories","configurations"],
 "all result-delivery orders, mutation sets with overlapping points, cutoff sizes, populations of at least twice the cutoff",
 "No test runs the combination step, and its conflict resolution depends on the order in which concurrent results arrive.",
 ["algorithm/modifiedgenetic.go","algorithm/data.go"],[("beneficial mutations collected as results arrive, conflicts resolved by fitness","algorithm/modifiedgenetic.go:setBeneficial"),("combination members","algorithm/modifiedgenetic.go:combineMutations")],
 ["points and mutations passed to Calculate after the parallel phase of a step"],
 [("beneficialMutations","per-base list of winning mutations","algorithm/modifiedgenetic.go")])
p("C05","Every new member is a survivor plus its reported mutations",
 "Every member that is not a survivor (or a combination) equals one of this generation's survivors with exactly the mutations reported to its evaluator applied, each naming the point's true old and new value and no point twice; each of them has been through the mutation method exactly once, with exactly the outcome the method reported; the survivors are used as parents evenly (their child counts differ by at most one) and the evaluator is told the right parent. Members keep their number of points, and every coordinate stays within 0 and 1 whatever the random source produces.",
 ["schedules","histories","inputs"],
 "all random streams including extreme values, mutation rates and amounts, schedules, generations, populations of at least twice the cutoff",
 "The mutation tests only check a rate of 0 and a rate of 1 on three points, once; the lineage across generations is never looked at.",
 ALG+["mutation/gaussian.go","mutation/random.go","normgeom/normpoint.go"],[("copy base then mutate, recording mutations","algorithm/*.go:newGeneration"),("coordinates are clamped","mutation/*.go:Mutate, normgeom/normpoint.go:Constrain")],
 ["evaluator.Evaluator.SetBase, PointsData.Points and PointsData.Mutations"])
p("C06","Results do not depend on how workers are scheduled",
 "With the same random seeds and configuration, the sequence of best points and best fitnesses is the same whatever the number, speed and interleaving of the evaluation workers. For the modified genetic algorithm this is promised when fitness is a pure function of the points and no two different members of a generation tie; for the simple algorithm it is promised always.",
 ["schedules","configurations"],
 "all pairs of schedules of the same seeded run",
 "A test observes one uncontrolled schedule; comparing the same seeded run under different interleavings needs the scheduler.",
 ALG+["algorithm/evaluator/parallel.go"],[("results are stored by index, all random choices are made by the coordinating goroutine","algorithm/*.go")],
 ["Best() and Stats().BestFitness after every step, compared bit for bit across schedules"])
p("C07","Caching never changes a result",
 "Fitness values and the whole search trajectory are bit-for-bit the same whatever the cache size (any power of two, including 1), however often different shapes collide in the cache, and whatever subset of cached entries is lost, kept or moved to another slot between generations.",
 ["configurations","histories","fault_sequences"],
 "cache sizes 2^0..2^12 and arbitrary loss, retention and misplacement of entries",
 "No test ever produces a cache hit or a hash collision.",
 ["fitness/cache.go","fitness/triangles.go","fitness/polygons.go","algorithm/evaluator/parallel.go"],[("a hit requires full equality of the shape's coordinates","fitness/cache.go:Equals"),("entries are copied out of scratch buffers","fitness/polygons.go:Calculate")],
 ["Calculate results and trajectories, compared across cache configurations and injected cache faults"])
p("C08","Each member is evaluated exactly once, and nothing overlaps it",
 "In every generation each member is evaluated exactly once; no two evaluations of the same member's fitness function overlap, and the evaluator is never asked to update, re-base or reorder a member whose evaluation is still running. The evaluator's per-generation preparation happens exactly once, before the first update, each evaluated member is updated exactly once, and a fitness function always stays with the points it last evaluated when the population is reordered.",
 ["schedules","histories"],
 "all worker schedules, both algorithms, all generations, custom evaluators",
 "The evaluator contract is only exercised by concurrent generations, which no test runs.",
 ALG+["algorithm/evaluator/evaluators.go","algorithm/evaluator/parallel.go"],[("one task per member, results joined over a channel","algorithm/*.go:calculateFitnesses"),("Swap keeps member and evaluator aligned","algorithm/*.go:Swap")],
 ["calls on evaluator.Evaluator and fitness.Function"])
p("C09","A step always completes",
 "As long as the fitness function itself returns, constructing an algorithm and every step finish within a bounded amount of work once faults stop, whatever the schedule: with slow or stalled workers, with idle workers expiring, with clock jumps, and with the shared worker pool refusing tasks or being shut down at any moment by another part of the program. No member's evaluation is lost because of such a fault.",
 ["schedules","fault_sequences","configurations"],
 "all schedules, worker stalls, pool shutdown and restart points, clock jumps, every population larger than its cutoff",
 "Tests run no step at all, and pool refusal or shutdown never happens in a test.",
 ALG,[("results are counted until every submitted member has reported","algorithm/*.go:calculateFitnesses"),("worker pool submission","algorithm/*.go: ants.Submit")],
 ["return of constructors and Step() within a step budget; evaluations per generation"])
p("C10","A crashing evaluation surfaces instead of hanging the run",
 "If evaluating a member panics, the constructor or step that requested it ends with a panic in its caller within bounded work, under every worker schedule, instead of waiting forever. A failed evaluation is never turned into a fitness, and the reported best result, best fitness and generation count stay those of the last completed step.",
 ["schedules","fault_sequences"],
 "every evaluation in a run as the crash point, every schedule",
 "No test injects a failing fitness function; the effect of one on the coordinating goroutine depends on the worker pool's recovery.",
 ALG,[("worker tasks and the join over their results","algorithm/*.go:calculateFitnesses")],
 ["outcome of Step(), Best() and Stats() after an injected panic"])
p("C11","Parallel evaluations share no unsynchronised mutable data",
 "While a generation is evaluated in parallel, no evaluation reads or writes data that another evaluation or the coordinating goroutine modifies without synchronisation in between. This holds across generations, for triangle and polygon targets, both algorithms and any cache size.",
 ["schedules","histories","configurations"],
 "all schedules and generations of both algorithms with the parallel evaluator",
 "A data race is visible only under particular interleavings, and no test evaluates anything in parallel.",
 ALG+["algorithm/evaluator/parallel.go","fitness/triangles.go","fitness/polygons.go","triangulation/incrdelaunay/delaunay.go","triangulation/incrdelaunay/voronoi.go"],[("two alternating caches: workers read one while the other is filled","algorithm/evaluator/parallel.go:Prepare/Update"),("bases are only read while children copy them","fitness/*.go:Calculate"),("deep copies in Set","triangulation/incrdelaunay")],
 ["happens-before race detection on the simulated execution"])
p("C12","A stalled evaluation does not hold up the others",
 "Evaluations within a generation are independent: on a machine with several processors, while one evaluation is stalled for arbitrarily long, every other evaluation of that generation's parallel phase can start and finish, and once the stall ends the step completes with the same result.",
 ["schedules","fault_sequences"],
 "every member as the stalled one, every schedule of the rest",
 "Requires holding one worker at a chosen instant while all others run to completion.",
 ALG,[("one pool task per member, submitted without waiting for earlier ones","algorithm/*.go:calculateFitnesses")],
 ["evaluations completed while one is held"])
p("C13","Independent optimisers in one process do not affect each other",
 "Several algorithm instances, each with its own points, evaluator and source of mutations, may be stepped at the same time from different goroutines on the same target image; each one follows exactly the trajectory it follows when it runs alone.",
 ["schedules","configurations"],
 "all interleavings of 2 to 4 instances of either algorithm sharing the worker pool and the image",
 "No test runs two instances, let alone concurrently.",
 ALG+["algorithm/evaluator/parallel.go","fitness/triangles.go","fitness/polygons.go","image/rgbdata.go"],[("all search state is per instance; shared image data is read-only","algorithm, fitness")],
 ["Best() and Stats() of every instance after every step, compared with its solo run"])
p("C14","A copied triangulation is exact and independent",
 "Setting one incremental triangulation (or polygon tessellation) to another of the same image size makes it answer every query exactly like the original, including its number of points, whatever it held before, even if it was abandoned in the middle of an update. From then on the two evolve independently, also when several copies of one base are taken and edited concurrently; each always equals what inserting its own current points into an empty one gives.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of copies being taken and edited concurrently, all insert/remove/set histories, aborted edits",
 "Tests insert three or four points into one triangulation; nothing is removed, copied or shared.",
 ["triangulation/incrdelaunay/delaunay.go","triangulation/incrdelaunay/voronoi.go","triangulation/incrdelaunay/grid.go","triangulation/incrdelaunay/pointmap.go","triangulation/incrdelaunay/polygonmap.go"],[("deep copy into reused buffers","triangulation/incrdelaunay: Set methods"),("duplicate counting","triangulation/incrdelaunay/pointmap.go"),("Bowyer-Watson insertion and Devillers removal","triangulation/incrdelaunay/delaunay.go")],
 ["IterTriangles, NumPoints, HasPoint, GetClosestTo, IterPolygons against a point-multiset model"])
p("C15","A saved result survives a crash",
 "Once the output writer has reported a save, the output file always holds a complete, readable point group that the algorithm reported as its best at that save or at a later one, whatever instant the process or the machine stops at; it is never empty, truncated or mixed. Before the first save of a run, a result left by an earlier run is still intact.",
 ["crash_points","fault_sequences","histories"],
 "every file-system operation and every instant between as the crash point; process kill and power loss; restarts",
 "Package utils has no tests; crash points between file-system operations cannot be reached by one.",
 ["utils/output.go"],[("the best point group is written after every batch of generations","utils/output.go:GenerateAlgorithmOutput")],
 ["contents of the output file after a simulated crash and restart"],
 [("output file","last saved best point group as JSON","utils/output.go")])
p("C16","Saving reports every failure and records every round",
 "When writing the result or its statistics fails (file cannot be created, disk full, I/O error, short write), the program stops with an error instead of continuing as if it had saved, and the last good result file is left intact. Otherwise every round appends exactly one statistics line, in order, giving the generation and best fitness of the result saved in that round.",
 ["fault_sequences","histories","crash_points"],
 "every file-system operation failing in every way, every number of rounds",
 "No test writes output, and disk errors do not occur in tests.",
 ["utils/output.go"],[("errors end the program through log.Fatal","utils/output.go:GenerateAlgorithmOutput"),("statistics are flushed every round","utils/output.go:GenerateAlgorithmOutput")],
 ["output and statistics files, exit status, under injected disk faults"])
p("C17","Profiles and traces are complete, bounded and never silently lost",
 "Generating a CPU profile steps the algorithm until the requested time has elapsed, however the wall clock jumps, and then returns within a few more generations with profiling stopped; generating a trace records the intended generations and returns with tracing stopped. When they return normally, the output file holds everything the profiler or tracer produced; if the file cannot be created or written, or profiling or tracing cannot start, the program stops with an error instead of producing nothing.",
 ["fault_sequences","schedules","configurations"],
 "clock jumps, step durations, disk faults at every operation, profiler or tracer already active",
 "Package utils has no tests; needs a controlled clock and a failing disk.",
 ["utils/profile.go","utils/trace.go"],[("time.Since loop","utils/profile.go"),("buffered writer and close","utils/trace.go")],
 ["output file contents, profiler/tracer state and simulated time on return"])
p("C18","Generation counts and timings are truthful",
 "The generation statistic counts exactly the completed steps (0 after construction), and the time reported for a generation is the elapsed time of the last step alone: never negative, at least the time spent in that step's evaluations and at most the time the step took, whatever the wall clock does meanwhile. Progress printed while running an algorithm appears after exactly every requested number of generations and states the statistics at that moment. What the output writer prints about a round is printed once, after its steps, and states the generation, the best fitness and the mean time in milliseconds that a step of this round took.",
 ["schedules","fault_sequences","histories"],
 "all schedules, slow evaluations, wall-clock jumps in both directions, any repetition count",
 "Tests control no clock and run no step.",
 ALG+["algorithm/algorithm.go","utils/fitness.go","utils/output.go"],[("time.Since around a step, counter incremented per step","algorithm/*.go:Step"),("progress printing","utils/fitness.go:RunAlgorithm, utils/output.go:GenerateAlgorithmOutput")],
 ["Stats() after every step; printed progress lines"])
p("C19","The best result handed out is detached from the search",
 "The caller may modify the point group it got as the best result in any way, at any time between steps, without affecting the search: the best points, best fitness and generation count after every later step are the same as if it had left it alone.",
 ["histories","schedules"],
 "all modifications of the returned group at any point between steps, all later generations",
 "No test looks at a later generation after using a returned result.",
 ALG,[("best is a separate copy","algorithm/*.go:updateFitnesses")],
 ["Best() after caller-side modification; later trajectory"])
p("C25","Generators return independent, complete point groups",
 "A generator returns exactly the requested number of points, all with coordinates between 0 and 1, for every positive count, every iteration number and every stream of random numbers, also when one generator or several are used from several goroutines at once. Every group is the caller's own: changing one or generating another never changes a group returned before. The points of the spaced generator are, on average, clearly further from their nearest neighbours than those of the random generator.",
 ["schedules","inputs","configurations"],
 "all counts, iteration numbers, random streams and interleavings of concurrent callers",
 "A test generates one group with one generator and looks at its length only.",
 ["generator/random.go","generator/spaced.go","normgeom/normpoint.go"],[("points are drawn into a new group","generator/random.go:randomPoints"),("hill climbing with Constrain on the caller's own group","generator/spaced.go:Generate")],
 ["Generate, its result while other groups are generated, data races"])
p("C27","One-shot operations may run at the same time",
 "Triangulating, polygonating, rendering, rasterising, converting an image, building or querying a triangulation and evaluating a point group with an own fitness function may be done from several goroutines at once, on the same points, shapes, image or (for queries) triangulation, and beside a running search on the same image. Each gives exactly what it gives alone, leaves what it was given unchanged, and none accesses shared data without synchronisation.",
 ["schedules","inputs"],
 "all interleavings of the operations on shared inputs",
 "No test calls any of these functions from two goroutines, and interference depends on the interleaving.",
 ["triangulation/triangulator.go","triangulation/incrdelaunay/","polygonation/polygonate.go","render/triangles.go","render/polygons.go","rasterize/","image/rgbdata.go","geom/","fitness/triangles.go","fitness/polygons.go"],
 [("all working storage is local to the call or to the structure it belongs to","render, rasterize, polygonation, triangulation"),("image data is only read after conversion","image/rgbdata.go, fitness/pixels.go")],
 ["results of concurrent calls compared with the same calls alone; their inputs afterwards; data races"])
p("C28","The default optimiser searches the image it was given",
 "The ready-made optimiser works on the requested number of points and on the image it was given, of whatever type, size and bounds, whatever the caller does with that image afterwards: after construction and after every step its best result has exactly that number of points, all inside the image, its best fitness is what a new triangle fitness function of that image computes for these points, it never falls, and the generation count is the number of steps. The same random seed gives the same results under every schedule.",
 ["schedules","inputs","fault_sequences"],
 "all schedules of its 400 evaluations per generation, all images and point counts",
 "Package utils has no tests; the default configuration is never run.",
 ["utils/default.go","generator/random.go","mutation/","image/rgbdata.go"]+ALG+["fitness/triangles.go"],[("composition of generator, evaluator, mutation and algorithm","utils/default.go:DefaultAlgorithm"),("the image is copied","image/rgbdata.go:ToData")],
 ["Best() and Stats() of the default optimiser after every step"])
p("C29","The block size never changes a result",
 "Fitness values and the whole search trajectory are bit-for-bit the same whatever the block size (from 1 to 100), for triangle and polygon targets and every image from one pixel up, also when a block is larger than the image: evaluating in blocks of pixels only saves time.",
 ["configurations","histories","schedules"],
 "pairs of block sizes 1..100, image sizes from 1x1, dark and bright images, mutation histories and cache contents",
 "The only fitness test evaluates one point group in blocks of one size; nothing compares block sizes, let alone over a search.",
 ["fitness/pixels.go","fitness/triangles.go","fitness/polygons.go","rasterize/blocks.go","rasterize/polygon.go"],[("sums of n*n blocks are precomputed","fitness/pixels.go:fromImageN"),("spans and blocks together cover what spans alone cover","rasterize/blocks.go")],
 ["Calculate results and trajectories, compared across block sizes"])
p("C30","A search leaves nothing running and its memory stays bounded",
 "Whatever the number of generations, once the constructor or a step has returned (or has panicked because an evaluation did) and the evaluations it started have ended, no goroutine or timer it started is left, apart from idle workers of the shared worker pool. The live memory does not keep growing with the number of generations, of edits and copies of a triangulation, of one-shot operations or of optimisers built and dropped. Writing output, profiling and tracing leave no open file, goroutine or timer behind beyond those of the round before.",
 ["histories","schedules","fault_sequences"],
 "all generation counts, configurations, schedules, sequences of edits and copies, panicking evaluations, failing disks and profilers",
 "No test runs a second generation, looks at what a finished operation leaves behind or measures memory over a history.",
 ALG+["algorithm/worker.go","algorithm/evaluator/parallel.go","fitness/cache.go","fitness/triangles.go","triangulation/incrdelaunay/","utils/output.go","utils/save.go","utils/profile.go","utils/trace.go"],
 [("the cache keeps two generations","algorithm/evaluator/parallel.go:Update, fitness/cache.go"),("removed triangles and points are reused","triangulation/incrdelaunay/delaunay.go"),("members are reused from generation to generation","algorithm/*.go:newGeneration"),("files are closed and profilers stopped","utils/")],
 ["goroutines, timers and open files at rest after every step or round; live heap after equal parts of a long history"])
p("C31","A fitness is the share of the image that flat colours can reproduce",
 "In every generation of every search, whatever was copied, re-based, cached or evaluated before and whatever the schedule, the fitness obtained for a member is one minus the squared colour error, as a share of the greatest possible one, that remains when every Delaunay triangle of its points (for polygon targets: every nearest-point cell cut to the image), with its corners rounded to pixels, is painted in the mean colour of the pixels it covers. Parts of the image that no triangle covers count with the greatest possible error, cells cover the whole image. (Exact up to rounding of the colours' squares; points with several Delaunay triangulations may be scored by any of them.)",
 ["histories","schedules","configurations"],
 "all mutation histories, schedules, cache sizes, block sizes, images of any content, standard type and size, point groups including few, clustered, coinciding and border points",
 "The tests score one point group once against a number that the code itself printed; nothing compares scores with what they stand for, for few points, for cells at the border or along a search.",
 ["fitness/triangles.go","fitness/polygons.go","fitness/pixels.go","rasterize/blocks.go","rasterize/polygon.go","triangulation/incrdelaunay/delaunay.go","triangulation/incrdelaunay/voronoi.go","image/rgbdata.go"],
 [("variance of every shape from sums over spans and blocks","fitness/triangles.go:Calculate, fitness/polygons.go:Calculate"),("uncovered area counts as greatest error","fitness/triangles.go:Calculate"),("cells are cut to the image and completed with its corners","triangulation/incrdelaunay/voronoi.go:processPoint"),("rows and blocks of a shape","rasterize/blocks.go")],
 ["evaluator.Evaluator.Get(i).Calculate result, compared with an independent reference model on the member's points and the image's bytes"])
p("C32","The picture drawn from the best result is the one that was scored",
 "At any time of a search, drawing a copy of the best result (triangulating or polygonating it and colouring the shapes on the target image), also by another task while the search goes on, gives every triangle or cell that the search scored exactly once, with its corners and with the mean colour of the pixels it covers (of its corners' pixels if it covers none); the only other triangles drawn are flat ones on the hull whose circumcircle reaches far outside the image. The squared error of that picture corresponds to the best fitness reported for that generation.",
 ["histories","schedules","configurations"],
 "all searches, generations, moments of drawing, images and sizes, triangle and polygon targets",
 "The tests draw one triangle on a black image; that the two triangulations, the two rasterisers and the two cell builders of the program agree on a search's results is never looked at.",
 ["triangulation/triangulator.go","polygonation/polygonate.go","render/triangles.go","render/polygons.go","rasterize/lines.go","rasterize/pixels.go","triangulation/incrdelaunay/voronoi.go","color/color.go","algorithm/modifiedgenetic.go","algorithm/simple.go"],
 [("points are rounded to pixels the same way","triangulation/triangulator.go, polygonation/polygonate.go, fitness/util.go:createPoint"),("mean colour over rasterised pixels","render/triangles.go, render/polygons.go"),("best points and fitness belong together","algorithm/*.go:updateFitnesses")],
 ["render.TrianglesOnImage / render.PolygonsOnImage of Best(), Stats().BestFitness"])
p("C33","A search varies its points as much as it was told to",
 "In every generation of a search with a built-in mutation method, every point of a new member is mutated independently of the others with the given rate (a rate of 0 never, of 1 always, the default method 2 of the points on average). A mutated point moves in both coordinates, independently of each other and of other points: by at most half the given amount, uniformly in both directions (random method), or by a normal distribution with half the given amount as standard deviation (Gaussian method; the default method has an amount of 0.3), and stays at the image's border where that would take it outside. An amount of 0 moves nothing.",
 ["histories","inputs","schedules"],
 "all rates, amounts, point counts, positions of points (inside, on and near the border), random streams and search histories",
 "The tests of both methods mutate three points once and look at whether anything changed; how often and how far is never looked at.",
 ["mutation/gaussian.go","mutation/random.go","random/random.go","normgeom/point.go"]+ALG,
 [("one draw per point decides, two make the displacement","mutation/gaussian.go:Mutate, mutation/random.go:Mutate"),("ziggurat over a PCG","random/random.go:NormFloat64"),("points are constrained to the image","normgeom/point.go:Constrain")],
 ["mutation.Method.Mutate: points before and after every call of a search"])
# not applicable: pure functions
na=lambda id,title,st,q,files,mech,obs: p(id,title,st,["inputs"],q,"The tests check a single example each; the statement is about all inputs.",files,mech,obs)
na("C20","One-shot triangulation is a Delaunay triangulation",
 "Triangulating a point group for an image size yields non-overlapping triangles whose corners are exactly the rounded points, covering their convex hull, with no point strictly inside any triangle's circumcircle.",
 "all point groups and image sizes",["triangulation/triangulator.go"],[("delegates to fogleman/delaunay","triangulation/triangulator.go:Triangulate")],["Triangulate"])
na("C21","One-shot polygonation is the clipped Voronoi diagram",
 "Polygonating a point group yields one convex polygon per distinct rounded point; together they cover the image exactly once and each lies within the image.",
 "all point groups and image sizes",["polygonation/polygonate.go","triangulation/incrdelaunay/voronoi.go"],[("Voronoi from circumcentres with clipping","triangulation/incrdelaunay/voronoi.go:Voronoi")],["Polygonate"])
na("C22","Rasterising covers each pixel once, and blocks equal lines",
 "The pixels reported for the triangles of a triangulation are disjoint and together cover its area, and rasterising in blocks reports exactly the same pixels as rasterising by lines or pixels.",
 "all integer triangles and block sizes",["rasterize/blocks.go","rasterize/lines.go","rasterize/pixels.go","rasterize/polygon.go"],[("DDA over sorted vertices","rasterize")],["DDATriangle, DDATriangleLines, DDATriangleBlocks"])
na("C23","Rendered colours are the mean image colours",
 "Every rendered triangle or polygon has normalised corner coordinates equal to its own and the average colour of the image pixels it covers, or of its corner pixels when it covers none.",
 "all shapes inside the image and all images",["render/triangles.go","render/polygons.go","color/color.go"],[("AverageRGB over rasterised pixels","render")],["TrianglesOnImage, PolygonsOnImage"])
na("C24","Image conversion is faithful",
 "Converting an image preserves its size and every pixel's 8-bit colour exactly, for every image type and bounds.",
 "all images",["image/rgbdata.go","fitness/pixels.go"],[("ToData","image/rgbdata.go")],["ToData, RGBAt"])
na("C26","The fast random source has the stated distributions",
 "Bounded integers are uniform below the bound, floats lie in the stated interval and normal variates follow a standard normal distribution; equal seeds give equal streams.",
 "all seeds",["random/random.go"],[("PCG and ziggurat","random/random.go")],["Intn, Float32, NormFloat64, Seed"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [len(x["title"]) for x in P])
