From cd7de4dffe4fbb8c9eab013222625ff97119bf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 01/17] fix: never let unevaluated members outrank evaluated
 ones

The modified genetic algorithm gave unused combination slots, and the members
it does not evaluate at construction, a fitness of 0. That beats negative
fitnesses and ties with zero, so such a member could become a base or the best
result.
---
 algorithm/modifiedgenetic.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/algorithm/modifiedgenetic.go b/algorithm/modifiedgenetic.go
index 7d9d165..94c126f 100644
--- a/algorithm/modifiedgenetic.go
+++ b/algorithm/modifiedgenetic.go
@@ -6,6 +6,7 @@ import (
 	"github.com/RH12503/Triangula/mutation"
 	"github.com/RH12503/Triangula/normgeom"
 	"github.com/panjf2000/ants/v2"
+	"math"
 	"sort"
 	"time"
 )
@@ -198,9 +199,9 @@ func (g *modifiedGenetic) combineMutations() {
 			g.fitnesses[i].Fitness = fit
 			g.evaluator.Update(i)
 		} else {
-			// If there aren't any beneficial mutations, leave the member out of the next generation by setting
-			// its fitness to 0
-			g.fitnesses[i].Fitness = 0
+			// If there aren't any beneficial mutations, leave the member out of the next generation by giving it
+			// a lower fitness than any calculated one
+			g.fitnesses[i].Fitness = math.Inf(-1)
 		}
 	}
 }
@@ -271,6 +272,12 @@ func NewModifiedGenetic(newPointGroup func() normgeom.NormPointGroup, size int,
 
 	// Calculate and update fitnesses in preparation for the first generation
 	algo.calculateFitnesses()
+
+	// The fitnesses of the members at the end aren't calculated, so leave them out of the first generation
+	for i := size - cutoff; i < size; i++ {
+		algo.fitnesses[i] = FitnessData{I: i, Fitness: math.Inf(-1)}
+	}
+
 	algo.updateFitnesses()
 
 	return &algo
-- 
2.43.0


From e36011371cc3e6c55cab42bbc2f9dafd71b0d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 02/17] fix: evaluate members the worker pool refuses

ants.Submit fails when the shared pool is closed. The error was ignored, and
the step then waited forever for a result that could not come.
---
 algorithm/modifiedgenetic.go |  3 +--
 algorithm/simple.go          |  3 +--
 algorithm/worker.go          | 10 ++++++++++
 3 files changed, 12 insertions(+), 4 deletions(-)
 create mode 100644 algorithm/worker.go

diff --git a/algorithm/modifiedgenetic.go b/algorithm/modifiedgenetic.go
index 94c126f..b7b7dda 100644
--- a/algorithm/modifiedgenetic.go
+++ b/algorithm/modifiedgenetic.go
@@ -5,7 +5,6 @@ import (
 	"github.com/RH12503/Triangula/fitness"
 	"github.com/RH12503/Triangula/mutation"
 	"github.com/RH12503/Triangula/normgeom"
-	"github.com/panjf2000/ants/v2"
 	"math"
 	"sort"
 	"time"
@@ -105,7 +104,7 @@ func (g *modifiedGenetic) calculateFitnesses() {
 		p := g.population[i]
 		e := g.evaluator.Get(i)
 		// Workers calculate the fitness of each member
-		ants.Submit(
+		submit(
 			func() {
 				fit := e.Calculate(fitness.PointsData{
 					Points:    p,
diff --git a/algorithm/simple.go b/algorithm/simple.go
index 78417ef..6d1be5f 100644
--- a/algorithm/simple.go
+++ b/algorithm/simple.go
@@ -5,7 +5,6 @@ import (
 	"github.com/RH12503/Triangula/fitness"
 	"github.com/RH12503/Triangula/mutation"
 	"github.com/RH12503/Triangula/normgeom"
-	"github.com/panjf2000/ants/v2"
 	"sort"
 	"time"
 )
@@ -58,7 +57,7 @@ func (s *simple) calculateFitnesses() {
 		i := i
 		p := p
 		e := s.evaluator.Get(i)
-		ants.Submit(
+		submit(
 			func() {
 				fit := e.Calculate(fitness.PointsData{
 					Points:    p,
diff --git a/algorithm/worker.go b/algorithm/worker.go
new file mode 100644
index 0000000..0fd45b3
--- /dev/null
+++ b/algorithm/worker.go
@@ -0,0 +1,10 @@
+package algorithm
+
+import "github.com/panjf2000/ants/v2"
+
+// submit runs a task on a worker, or directly if the worker pool doesn't accept it.
+func submit(task func()) {
+	if err := ants.Submit(task); err != nil {
+		task()
+	}
+}
-- 
2.43.0


From 88793b23f9e33f4a3075eeed95db59097fac142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 03/17] fix: let a panicking fitness function end the step

The worker pool swallows panics of its tasks, so a panicking fitness function
left the step waiting for its result forever. It now reaches the caller, once
the other calculations of the generation have ended.
---
 algorithm/data.go            |  2 ++
 algorithm/modifiedgenetic.go | 10 +++++++++-
 algorithm/simple.go          | 10 +++++++++-
 algorithm/worker.go          | 17 ++++++++++++++++-
 4 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/algorithm/data.go b/algorithm/data.go
index 553bc85..f6023e8 100644
--- a/algorithm/data.go
+++ b/algorithm/data.go
@@ -6,6 +6,8 @@ import "github.com/RH12503/Triangula/mutation"
 type FitnessData struct {
 	Fitness float64
 	I       int // The index of the point group in an Algorithm.
+
+	failure interface{} // What calculating the fitness panicked with, if it did.
 }
 
 // MutationsData stores a set of mutations and the index of the member which each mutation came from.
diff --git a/algorithm/modifiedgenetic.go b/algorithm/modifiedgenetic.go
index b7b7dda..e249092 100644
--- a/algorithm/modifiedgenetic.go
+++ b/algorithm/modifiedgenetic.go
@@ -106,13 +106,14 @@ func (g *modifiedGenetic) calculateFitnesses() {
 		// Workers calculate the fitness of each member
 		submit(
 			func() {
-				fit := e.Calculate(fitness.PointsData{
+				fit, failure := calculate(e, fitness.PointsData{
 					Points:    p,
 					Mutations: g.mutations[i],
 				})
 				ch <- FitnessData{
 					I:       i,
 					Fitness: fit,
+					failure: failure,
 				}
 			},
 		)
@@ -123,6 +124,13 @@ func (g *modifiedGenetic) calculateFitnesses() {
 
 	done := 0
 	for d := range ch {
+		if d.failure != nil {
+			for done++; done < len(g.population)-g.cutoff; done++ {
+				<-ch // Wait for the other calculations
+			}
+			panic(d.failure)
+		}
+
 		g.fitnesses[d.I].Fitness = d.Fitness
 		g.evaluator.Update(d.I)
 
diff --git a/algorithm/simple.go b/algorithm/simple.go
index 6d1be5f..7e7f574 100644
--- a/algorithm/simple.go
+++ b/algorithm/simple.go
@@ -59,13 +59,14 @@ func (s *simple) calculateFitnesses() {
 		e := s.evaluator.Get(i)
 		submit(
 			func() {
-				fit := e.Calculate(fitness.PointsData{
+				fit, failure := calculate(e, fitness.PointsData{
 					Points:    p,
 					Mutations: s.mutations[i],
 				})
 				ch <- FitnessData{
 					I:       i,
 					Fitness: fit,
+					failure: failure,
 				}
 			},
 		)
@@ -76,6 +77,13 @@ func (s *simple) calculateFitnesses() {
 
 	done := 0
 	for d := range ch {
+		if d.failure != nil {
+			for done++; done < len(s.population); done++ {
+				<-ch // Wait for the other calculations
+			}
+			panic(d.failure)
+		}
+
 		s.fitnesses[d.I].Fitness = d.Fitness
 		s.evaluator.Update(d.I)
 
diff --git a/algorithm/worker.go b/algorithm/worker.go
index 0fd45b3..cc812a8 100644
--- a/algorithm/worker.go
+++ b/algorithm/worker.go
@@ -1,6 +1,10 @@
 package algorithm
 
-import "github.com/panjf2000/ants/v2"
+import (
+	"errors"
+	"github.com/RH12503/Triangula/fitness"
+	"github.com/panjf2000/ants/v2"
+)
 
 // submit runs a task on a worker, or directly if the worker pool doesn't accept it.
 func submit(task func()) {
@@ -8,3 +12,14 @@ func submit(task func()) {
 		task()
 	}
 }
+
+// calculate calculates a fitness. If the fitness function panics, it returns what it panicked with.
+func calculate(f fitness.Function, data fitness.PointsData) (fit float64, failure interface{}) {
+	failure = errors.New("algorithm: the fitness function panicked with nil")
+	defer func() {
+		if r := recover(); r != nil {
+			failure = r
+		}
+	}()
+	return f.Calculate(data), nil
+}
-- 
2.43.0


From 68115f18477eb8fd3763ea311f0cafd848e63cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 04/17] fix: allow evaluators with a single cache slot

The first hashes were computed for two slots, so NewParallel with a cache of
2^0 slots panicked with an index out of range.
---
 fitness/polygons.go  | 2 +-
 fitness/triangles.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fitness/polygons.go b/fitness/polygons.go
index a82df75..5bb4ea4 100644
--- a/fitness/polygons.go
+++ b/fitness/polygons.go
@@ -181,7 +181,7 @@ func PolygonsImageFunctions(target image.Data, blockSize, n int) []CacheFunction
 			targetN:       pixelsN,
 			blockSize:     blockSize,
 			maxDifference: maxDiff,
-			TriangleCache: make([]CacheData, 2),
+			TriangleCache: make([]CacheData, 1),
 		}
 		functions[i] = &function
 	}
diff --git a/fitness/triangles.go b/fitness/triangles.go
index 648c7e8..3dd2a41 100644
--- a/fitness/triangles.go
+++ b/fitness/triangles.go
@@ -187,7 +187,7 @@ func TrianglesImageFunctions(target image.Data, blockSize, n int) []CacheFunctio
 			targetN:       pixelsN,
 			blockSize:     blockSize,
 			maxDifference: maxDiff,
-			TriangleCache: make([]CacheData, 2),
+			TriangleCache: make([]CacheData, 1),
 		}
 		functions[i] = &function
 	}
@@ -204,6 +204,6 @@ func NewTrianglesImageFunction(target image.Data, blockSize int) CacheFunction {
 		targetN:       fromImageN(target, blockSize),
 		blockSize:     blockSize,
 		maxDifference: float64(maxPixelDifference * w * h),
-		TriangleCache: make([]CacheData, 2),
+		TriangleCache: make([]CacheData, 1),
 	}
 }
-- 
2.43.0


From a26e7911f480aab5ffcce20215a867616a06f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 05/17] fix: copy the number of points in Delaunay.Set

---
 triangulation/incrdelaunay/delaunay.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triangulation/incrdelaunay/delaunay.go b/triangulation/incrdelaunay/delaunay.go
index e40f55f..5d5051b 100644
--- a/triangulation/incrdelaunay/delaunay.go
+++ b/triangulation/incrdelaunay/delaunay.go
@@ -301,6 +301,9 @@ func (d *Delaunay) Set(other *Delaunay) {
 
 	d.grid.Set(&other.grid)
 	d.pointMap.Set(&other.pointMap)
+
+	d.numPoints = other.numPoints
+	d.uniquePoints = other.uniquePoints
 }
 
 // HasPoint returns whether the triangulation contains point p.
-- 
2.43.0


From 19a215894332e1fc2ebeb13e90240d132be0f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 06/17] fix: report failing statistics output

The errors of creating the statistics file and of writing to it were ignored.
---
 utils/output.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utils/output.go b/utils/output.go
index 3e43363..301140d 100644
--- a/utils/output.go
+++ b/utils/output.go
@@ -13,7 +13,10 @@ import (
 
 // GenerateAlgorithmOutput runs an algorithm.Algorithm and writes the best point group to a file.
 func GenerateAlgorithmOutput(outputFile string, algo algorithm.Algorithm, reps int) {
-	dataFile, _ := os.Create(outputFile + "-stats")
+	dataFile, err := os.Create(outputFile + "-stats")
+	if err != nil {
+		log.Fatal(err)
+	}
 	writer := bufio.NewWriter(dataFile)
 
 	for {
@@ -34,7 +37,7 @@ func GenerateAlgorithmOutput(outputFile string, algo algorithm.Algorithm, reps i
 			log.Fatal(err)
 		}
 		writer.WriteString(fmt.Sprintf("%v, %v\n", stats.Generation, stats.BestFitness))
-		writer.Flush()
+		err = writer.Flush()
 		if err != nil {
 			log.Fatal(err)
 		}
-- 
2.43.0


From 1a9d18ae329b0d8b45ecbce096cb28126a0c696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 07/17] fix: save results atomically and durably

WriteFile truncates the last good result before writing the new one, so a crash
or a full disk could leave an empty or partial file.
---
 utils/output.go |  3 +--
 utils/save.go   | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 2 deletions(-)
 create mode 100644 utils/save.go

diff --git a/utils/output.go b/utils/output.go
index 301140d..0cb46b5 100644
--- a/utils/output.go
+++ b/utils/output.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"github.com/RH12503/Triangula/algorithm"
-	"io/ioutil"
 	"log"
 	"os"
 	"time"
@@ -32,7 +31,7 @@ func GenerateAlgorithmOutput(outputFile string, algo algorithm.Algorithm, reps i
 		if err != nil {
 			log.Fatal(err)
 		}
-		err = ioutil.WriteFile(outputFile, jsonOut, 0644)
+		err = saveFile(outputFile, jsonOut)
 		if err != nil {
 			log.Fatal(err)
 		}
diff --git a/utils/save.go b/utils/save.go
new file mode 100644
index 0000000..b4c0328
--- /dev/null
+++ b/utils/save.go
@@ -0,0 +1,48 @@
+package utils
+
+import (
+	"os"
+	"path/filepath"
+	"runtime"
+)
+
+// saveFile replaces the contents of a file so that it always holds either the old or the new
+// contents, even if the program or the machine stops. The new contents are durable when it returns.
+func saveFile(filename string, data []byte) error {
+	temp := filename + ".tmp"
+	f, err := os.OpenFile(temp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(temp, filename)
+	}
+	if err != nil {
+		os.Remove(temp)
+		return err
+	}
+	return syncDir(filepath.Dir(filename))
+}
+
+// syncDir makes changes to the entries of a directory durable.
+func syncDir(dir string) error {
+	if runtime.GOOS == "windows" { // Directories can't be synced
+		return nil
+	}
+	d, err := os.Open(dir)
+	if err != nil {
+		return err
+	}
+	err = d.Sync()
+	if closeErr := d.Close(); err == nil {
+		err = closeErr
+	}
+	return err
+}
-- 
2.43.0


From b144ff51f1c615758abd5704668a8f43e392c316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 08/17] fix: report profiles that cannot be written

The errors of starting the profiler and of writing and closing the file were
ignored.
---
 utils/profile.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/utils/profile.go b/utils/profile.go
index c662602..dad27c5 100644
--- a/utils/profile.go
+++ b/utils/profile.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+	"bufio"
 	"github.com/RH12503/Triangula/algorithm"
 	"log"
 	"os"
@@ -15,13 +16,24 @@ func GenerateProfile(outputFile string, algo algorithm.Algorithm, seconds int) {
 		log.Fatal(err)
 	}
 
+	writer := bufio.NewWriter(f) // Keeps the first error that occurs
+
 	t := time.Now()
-	pprof.StartCPUProfile(f)
+	if err := pprof.StartCPUProfile(writer); err != nil {
+		log.Fatal(err)
+	}
 	for time.Since(t).Seconds() < float64(seconds) {
 		for i := 0; i < 5; i++ {
 			algo.Step()
 		}
 	}
 
-	defer pprof.StopCPUProfile()
+	pprof.StopCPUProfile()
+
+	if err := writer.Flush(); err != nil {
+		log.Fatal(err)
+	}
+	if err := f.Close(); err != nil {
+		log.Fatal(err)
+	}
 }
-- 
2.43.0


From 41aa0d94e799963696f66db33a399c5cd8b82204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 09/17] fix: write traces completely and report failures

The buffered writer was never flushed, so the end of every trace was lost, and
all errors were ignored.
---
 utils/trace.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/utils/trace.go b/utils/trace.go
index 4631437..e86da40 100644
--- a/utils/trace.go
+++ b/utils/trace.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"bufio"
 	"github.com/RH12503/Triangula/algorithm"
+	"log"
 	"os"
 	"runtime/trace"
 )
@@ -10,16 +11,27 @@ import (
 // GenerateTrace generates a trace of an algorithm, and is
 // used for debugging and evaluating performance.
 func GenerateTrace(outputFile string, algo algorithm.Algorithm) {
-	dataFile, _ := os.Create(outputFile + ".trace")
+	dataFile, err := os.Create(outputFile + ".trace")
+	if err != nil {
+		log.Fatal(err)
+	}
 	writer := bufio.NewWriter(dataFile)
 	for i := 0; i < 2000; i++ {
 		algo.Step()
 	}
 
-	trace.Start(writer)
+	if err := trace.Start(writer); err != nil {
+		log.Fatal(err)
+	}
 	for i := 0; i < 1000; i++ {
 		algo.Step()
 	}
 	trace.Stop()
-	dataFile.Close()
+
+	if err := writer.Flush(); err != nil {
+		log.Fatal(err)
+	}
+	if err := dataFile.Close(); err != nil {
+		log.Fatal(err)
+	}
 }
-- 
2.43.0


From 35d273577fefc7bcbe6aaa06d423dc6b78a4fa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 10/17] fix: evaluate members refused by the worker pool
 concurrently

---
 algorithm/worker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithm/worker.go b/algorithm/worker.go
index cc812a8..b4eaf70 100644
--- a/algorithm/worker.go
+++ b/algorithm/worker.go
@@ -6,10 +6,10 @@ import (
 	"github.com/panjf2000/ants/v2"
 )
 
-// submit runs a task on a worker, or directly if the worker pool doesn't accept it.
+// submit runs a task on a worker, or on a goroutine of its own if the worker pool doesn't accept it.
 func submit(task func()) {
 	if err := ants.Submit(task); err != nil {
-		task()
+		go task()
 	}
 }
 
-- 
2.43.0


From 97e0e80d81157079ffc388be3957c36328557a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 11/17] fix: sums of large blocks overflowed

---
 fitness/pixels.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fitness/pixels.go b/fitness/pixels.go
index 8a6360d..bdbefcd 100644
--- a/fitness/pixels.go
+++ b/fitness/pixels.go
@@ -61,7 +61,7 @@ type pixelDataN struct {
 
 // pixel stores RGB values of a pixel as well as the sum of their squares in a N*N block.
 type pixelN struct {
-	r, g, b uint16
+	r, g, b uint32
 	sq      uint32
 }
 
@@ -89,9 +89,9 @@ func fromImageN(image image.Data, n int) pixelDataN {
 			for i := 0; i < n; i++ {
 				for j := 0; j < n; j++ {
 					rgb := image.RGBAt(x+i, y+j)
-					col.r += uint16(rgb.R * 255)
-					col.g += uint16(rgb.G * 255)
-					col.b += uint16(rgb.B * 255)
+					col.r += uint32(rgb.R * 255)
+					col.g += uint32(rgb.G * 255)
+					col.b += uint32(rgb.B * 255)
 					col.sq += uint32(rgb.R*255*rgb.R*255 + rgb.G*255*rgb.G*255 + rgb.B*255*rgb.B*255)
 				}
 			}
-- 
2.43.0


From 7f6e30e68e2853042da2efea03dbc8270f8544ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 12/17] fix: images smaller than a block

---
 fitness/pixels.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fitness/pixels.go b/fitness/pixels.go
index bdbefcd..30b7c99 100644
--- a/fitness/pixels.go
+++ b/fitness/pixels.go
@@ -68,6 +68,10 @@ type pixelN struct {
 // newPixelDataN creates a new pixelDataN given a width and height.
 func newPixelDataN(w, h, n int) pixelDataN {
 	data := pixelDataN{}
+	if w < n || h < n {
+		return data // No block fits into the image
+	}
+
 	data.pixels = make([][]pixelN, h-n+1)
 
 	for i := range data.pixels {
-- 
2.43.0


From a8086f017871d05b9728e9bebf2378e493e700de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 13/17] fix: triangulations of images of one pixel

---
 triangulation/incrdelaunay/geom.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triangulation/incrdelaunay/geom.go b/triangulation/incrdelaunay/geom.go
index ec7a321..6c2e0e9 100644
--- a/triangulation/incrdelaunay/geom.go
+++ b/triangulation/incrdelaunay/geom.go
@@ -34,6 +34,9 @@ func NewSuperTriangle(w, h int) Triangle {
 	if h > w {
 		max = int16(h)
 	}
+	if max < 2 {
+		max = 2 // Keeps the corners off -1, which marks a removed triangle
+	}
 	a := Point{hW - 2*max, hH - max}
 	b := Point{hW, hH + 2*max}
 	c := Point{hW + 2*max, hH - max}
-- 
2.43.0


From 21094e72ac01aa7b26e640f8e8d4d9b8b81e9ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 14/17] fix: convert images whose bounds do not start at zero

---
 image/rgbdata.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/image/rgbdata.go b/image/rgbdata.go
index f422e87..ba44f6b 100644
--- a/image/rgbdata.go
+++ b/image/rgbdata.go
@@ -37,12 +37,13 @@ func NewData(w, h int) RGBData {
 
 // ToData converts an image.Image to a RGBData.
 func ToData(image image.Image) RGBData {
-	data := NewData(image.Bounds().Max.X, image.Bounds().Max.Y)
+	bounds := image.Bounds()
+	data := NewData(bounds.Dx(), bounds.Dy())
 
 	for y := range data.pixels {
 		for x := range data.pixels[y] {
 			col := &data.pixels[y][x]
-			r, g, b, _ := image.At(x, y).RGBA()
+			r, g, b, _ := image.At(bounds.Min.X+x, bounds.Min.Y+y).RGBA()
 
 			col.R = convertColor(r)
 			col.G = convertColor(g)
-- 
2.43.0


From fb6317771836605af6dd0b0ec5716328d09a1bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:23 +0000
Subject: [PATCH 15/17] fix: keep every triangle findable in the circumcircle
 grid of large images

Circumcircles are stored in float32, so beyond a radius of 32768 (images of
more than 7700 pixels) the fixed margin of 0.001 was smaller than the
rounding. A circle that just reached the edge of a box was left out of it, a
point inserted there kept a triangle it should remove, and the triangulation
was broken from then on.
---
 triangulation/incrdelaunay/grid.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triangulation/incrdelaunay/grid.go b/triangulation/incrdelaunay/grid.go
index 82eeab9..da8b95e 100644
--- a/triangulation/incrdelaunay/grid.go
+++ b/triangulation/incrdelaunay/grid.go
@@ -30,7 +30,7 @@ func NewCircumcircleGrid(cols, rows, w, h int) CircumcircleGrid {
 // AddTriangle adds a Triangle with an index to the grid.
 func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint16) {
 	// Find all the boxes of the grid that the triangle's circumcircle intersects
-	radius := t.Circumcircle.Radius + 0.001
+	radius := t.Circumcircle.Radius*(1+1e-6) + 0.001 // float32 rounds in proportion to the radius
 	topLeftX := int(float64(t.Circumcircle.cX-radius) / c.colPixels)
 	topLeftY := int(float64(t.Circumcircle.cY-radius) / c.rowPixels)
 	bottomRightX := int(math.Ceil(float64(t.Circumcircle.cX+radius) / c.colPixels))
@@ -63,7 +63,7 @@ func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint16) {
 // RemoveTriangle removes a triangle from the grid.
 func (c *CircumcircleGrid) RemoveTriangle(tri Triangle, index uint16) {
 	// Find all the boxes of the grid that the triangle's circumcircle intersects
-	radius := tri.Circumcircle.Radius + 0.001
+	radius := tri.Circumcircle.Radius*(1+1e-6) + 0.001
 	topLeftX := int(float64(tri.Circumcircle.cX-radius) / c.colPixels)
 	topLeftY := int(float64(tri.Circumcircle.cY-radius) / c.rowPixels)
 	bottomRightX := int(math.Ceil(float64(tri.Circumcircle.cX+radius) / c.colPixels))
-- 
2.43.0


From a10670b1a92131cb8857224ffeab9c62b5d83503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:45 +0000
Subject: [PATCH 16/17] fix: keep the image corners of cells that lie at two or
 more corners

---
 triangulation/incrdelaunay/voronoi.go | 48 +++++++++------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/triangulation/incrdelaunay/voronoi.go b/triangulation/incrdelaunay/voronoi.go
index 913dac7..8cc1828 100644
--- a/triangulation/incrdelaunay/voronoi.go
+++ b/triangulation/incrdelaunay/voronoi.go
@@ -162,8 +162,6 @@ func (v *IVoronoi) processPoint(point Point) {
 	if clip {
 		v.newPolygon = v.newPolygon[:0]
 
-		intersections := [4]int{-1, -1, -1, -1}
-
 		for i := 0; i < len(v.points); i++ {
 			a := v.points[i]
 			b := v.points[(i+1)%len(v.points)]
@@ -174,7 +172,7 @@ func (v *IVoronoi) processPoint(point Point) {
 				v.newPolygon = append(v.newPolygon, a)
 			}
 
-			for j, e := range edges {
+			for _, e := range edges {
 				e0 := FloatPoint{
 					X: e[0].X * float64(v.w),
 					Y: e[0].Y * float64(v.h),
@@ -203,24 +201,18 @@ func (v *IVoronoi) processPoint(point Point) {
 					if new != e0 && new != e1 {
 						v.newPolygon = append(v.newPolygon, new)
 					}
-					intersections[j] += 1
 				}
 			}
 
 		}
 
-		for j, e := range edges {
-			i0 := intersections[j]
-			i1 := intersections[(j+1)%len(edges)]
-
-			if i0 != -1 && i1 != -1 {
-				corner := FloatPoint{
-					X: e[1].X * float64(v.w),
-					Y: e[1].Y * float64(v.h),
-				}
-				if polygonPointIntersect(v.points, corner) {
-					v.newPolygon = append(v.newPolygon, corner)
-				}
+		for _, e := range edges {
+			corner := FloatPoint{
+				X: e[1].X * float64(v.w),
+				Y: e[1].Y * float64(v.h),
+			}
+			if polygonPointIntersect(v.points, corner) {
+				v.newPolygon = append(v.newPolygon, corner)
 			}
 		}
 
@@ -378,8 +370,6 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 		if clip {
 			newPolygon = newPolygon[:0]
 
-			intersections := [4]int{-1, -1, -1, -1}
-
 			for i := 0; i < len(points); i++ {
 				a := points[i]
 				b := points[(i+1)%len(points)]
@@ -390,7 +380,7 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 					newPolygon = append(newPolygon, a)
 				}
 
-				for j, e := range edges {
+				for _, e := range edges {
 					e0 := FloatPoint{
 						X: e[0].X * float64(w),
 						Y: e[0].Y * float64(h),
@@ -419,24 +409,18 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 						if new != e0 && new != e1 {
 							newPolygon = append(newPolygon, new)
 						}
-						intersections[j] += 1
 					}
 				}
 
 			}
 
-			for j, e := range edges {
-				i0 := intersections[j]
-				i1 := intersections[(j+1)%len(edges)]
-
-				if i0 != -1 && i1 != -1 {
-					corner := FloatPoint{
-						X: e[1].X * float64(w),
-						Y: e[1].Y * float64(h),
-					}
-					if polygonPointIntersect(points, corner) {
-						newPolygon = append(newPolygon, corner)
-					}
+			for _, e := range edges {
+				corner := FloatPoint{
+					X: e[1].X * float64(w),
+					Y: e[1].Y * float64(h),
+				}
+				if polygonPointIntersect(points, corner) {
+					newPolygon = append(newPolygon, corner)
 				}
 			}
 
-- 
2.43.0


From 58d971765c9908dbb0b708c0470e784cf737210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:53 +0000
Subject: [PATCH 17/17] fix: do not overflow when squaring the colour sums of
 large shapes

---
 fitness/polygons.go  | 2 +-
 fitness/triangles.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fitness/polygons.go b/fitness/polygons.go
index 5bb4ea4..98e3983 100644
--- a/fitness/polygons.go
+++ b/fitness/polygons.go
@@ -131,7 +131,7 @@ func (g *polygonsImageFunction) Calculate(data PointsData) float64 {
 			})
 			var diff float64
 			if n != 0 {
-				diff = float64(sSq) - float64(sR0*sR0+sG0*sG0+sB0*sB0)/float64(n)
+				diff = float64(sSq) - (float64(sR0)*float64(sR0)+float64(sG0)*float64(sG0)+float64(sB0)*float64(sB0))/float64(n)
 			}
 			difference += diff
 			polyData.fitness = diff
diff --git a/fitness/triangles.go b/fitness/triangles.go
index 3dd2a41..4fce862 100644
--- a/fitness/triangles.go
+++ b/fitness/triangles.go
@@ -135,7 +135,7 @@ func (t *trianglesImageFunction) Calculate(data PointsData) float64 {
 			})
 			var diff float64
 			if n != 0 {
-				diff = float64(sSq) - float64(sR0*sR0+sG0*sG0+sB0*sB0)/float64(n)
+				diff = float64(sSq) - (float64(sR0)*float64(sR0)+float64(sG0)*float64(sG0)+float64(sB0)*float64(sB0))/float64(n)
 			}
 			difference += diff
 			triData.fitness = diff
-- 
2.43.0

