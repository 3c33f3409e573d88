From fc6046cbf8fdb0259a16c2c7eed1463ba7faf548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 01/27] fix: copy whole nodes, not vectorLength bytes of them

CopyNode takes a size in bytes but was given the number of vector elements,
so split nodes and root copies lost most of their hyperplane, and with short
vectors their children as well (a search then reached item 0 only).
---
 distance/two_means.go | 4 ++--
 index/annoyindex.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/distance/two_means.go b/distance/two_means.go
index 8ccba10..a1aed4d 100644
--- a/distance/two_means.go
+++ b/distance/two_means.go
@@ -34,8 +34,8 @@ func TwoMeans[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 		j++ // ensure that i != j
 	}
 
-	utils.CopyNode(p, nodes[i], vectorLength)
-	utils.CopyNode(q, nodes[j], vectorLength)
+	utils.CopyNode(p, nodes[i], distance.NodeSize())
+	utils.CopyNode(q, nodes[j], distance.NodeSize())
 
 	if cosine {
 		distance.Normalize(p)
diff --git a/index/annoyindex.go b/index/annoyindex.go
index 3fad753..0d61c27 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -202,7 +202,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Build(numberOfTrees, numWorkers int) {
 		dst := idx.getNode(idx._n_nodes + i)
 		src := idx.getNode(idx._roots[i])
 
-		utils.CopyNode(dst, src, idx.vectorLength)
+		utils.CopyNode(dst, src, idx.nodeSize)
 
 		if idx.logVerbose {
 			fmt.Printf(
@@ -444,7 +444,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 	idx.buildPolicy.LockSharedNodes()
 	dst := idx.getNode(item)
 
-	utils.CopyNode(dst, m, idx.vectorLength)
+	utils.CopyNode(dst, m, idx.nodeSize)
 	idx.buildPolicy.UnlockSharedNodes()
 
 	if idx.logVerbose {
-- 
2.43.0


From 844dacc92eab1ccc5a5a976c3d48b643251a1714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 02/27] fix: search the most promising node first

The priority queue pops the smallest element, whereas the priorities grow
with how promising a node is: the search walked away from the query, one tree
at a time, and a bounded query missed even the queried item itself.
---
 index/annoyindex_search.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 7a2419d..41506c1 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -85,7 +85,9 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	}
 
 	for i := range idx._roots {
-		q.Push(idx.distance.PQInitialValue(), idx._roots[i])
+		// The queue pops its smallest element first, hence the priorities are
+		// stored negated to visit the most promising node first.
+		q.Push(-idx.distance.PQInitialValue(), idx._roots[i])
 	}
 
 	cnt := 0
@@ -93,7 +95,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	for cnt < numNodesToInspect && !q.Empty() {
 		top := q.Top()
 
-		d := top.First
+		d := -top.First
 		i := top.Second
 		nd := idx.distance.MapNodeToMemory(idx._nodes, i)
 
@@ -118,12 +120,12 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 			children := nd.GetChildren()
 
 			q.Push(
-				idx.distance.PQDistance(d, margin, interfaces.SideRight),
+				-idx.distance.PQDistance(d, margin, interfaces.SideRight),
 				children[interfaces.SideRight],
 			)
 
 			q.Push(
-				idx.distance.PQDistance(d, margin, interfaces.SideLeft),
+				-idx.distance.PQDistance(d, margin, interfaces.SideLeft),
 				children[interfaces.SideLeft],
 			)
 		}
-- 
2.43.0


From 055288a7a116af2869098af4752fb957f9e7c125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 03/27] fix: let the candidate buffers of a search grow

An item that is a child of split nodes in several trees was counted once when
the context was sized, so a query inspecting many nodes ran out of the buffer
and panicked, or dropped candidates.
---
 index/annoyindex_search.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 41506c1..4e1bcf4 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -91,6 +91,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	}
 
 	cnt := 0
+	nns := bc.nns[:0]
 
 	for cnt < numNodesToInspect && !q.Empty() {
 		top := q.Top()
@@ -104,16 +105,9 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 		nDescendants := nd.GetNumberOfDescendants()
 
 		if nDescendants == 1 && i < idx._n_items {
-			bc.nns[cnt] = i
-			cnt++
+			nns = append(nns, i)
 		} else if nDescendants <= idx.maxDescendants {
-			dst := nd.GetChildren()
-			if len(dst) == int(nDescendants) {
-				copy(bc.nns[TIX(cnt):], dst)
-			} else {
-				copy(bc.nns[TIX(cnt):], dst[:nDescendants])
-			}
-			cnt += int(nDescendants)
+			nns = append(nns, nd.GetChildren()...)
 		} else {
 			// Node is normal of the split plane.
 			margin := idx.distance.Margin(nd, vector)
@@ -129,11 +123,19 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 				children[interfaces.SideLeft],
 			)
 		}
+
+		cnt = len(nns)
+	}
+
+	// An item may be found once per tree, hence the candidates may outgrow
+	// what the context was created with.
+	bc.nns = nns
+	for len(bc.nns_dist) < len(nns) {
+		bc.nns_dist = append(bc.nns_dist, &interfaces.Pair[TV, TIX]{})
 	}
 
 	// Get distances for all items
 	// To avoid calculating distance multiple times for any items, sort by id
-	nns := bc.nns[:cnt]
 	idx.sorter.SortSlice(nns)
 
 	mem := make([]byte, idx.nodeSize) // Allocate mem on gcheap
-- 
2.43.0


From fb7be57651984ede93aef79be7408128b81763c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:04 +0000
Subject: [PATCH 04/27] fix: let each build worker use its own random generator

makeTree ignored the generator seeded for the worker and drew from the shared
one: a data race between workers, and a forest that depended on their
schedule.
---
 index/annoyindex.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 0d61c27..599e474 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -363,7 +363,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 		children_indices[0] = nil
 		children_indices[1] = nil
 
-		idx.distance.CreateSplit(children, idx.nodeSize, idx.random, m)
+		idx.distance.CreateSplit(children, idx.nodeSize, rnd, m)
 
 		for _, j := range indices {
 			// TODO: original code did a check: Node* n = _get(j); if (n) {...}
@@ -372,7 +372,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 			side := idx.distance.Side(
 				m,
 				n.GetVector(idx.vectorLength),
-				idx.random,
+				rnd,
 			)
 
 			children_indices[side] = append(children_indices[side], j)
@@ -403,7 +403,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 
 		for _, j := range indices {
 			// Just randomize...
-			side := idx.random.NextSide()
+			side := rnd.NextSide()
 			children_indices[side] = append(children_indices[side], j)
 		}
 	}
-- 
2.43.0


From 71c9dd5f6639bca979d96f0a2fa9e16db52ec994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 05/27] fix: find exactly the roots when loading an index

The backward scan for the roots never ended when all nodes had the same number
of descendants (no item, or a single one) and read outside of the file. It also
kept duplicate roots when several roots ended up next to each other (few items,
or many workers), and took items for roots when there were no trees at all.
---
 index/annoyindex_io.go | 43 +++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index c777480..2dbc586 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -13,6 +13,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		return fmt.Errorf("can't save an index that hasn't been built")
 	}
 
+	if len(idx._roots) == 0 {
+		return fmt.Errorf("can't save an index without any trees")
+	}
+
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
@@ -61,33 +65,30 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 	idx._roots = nil
 	idx._n_nodes = TIX(idx.indexMemory.Size()) / idx.nodeSize
 
-	var (
-		mset bool
-		m    TIX
-	)
-
-	for i := idx._n_nodes - 1; i >= 0; i-- {
+	// The last node is the copy of a root, thus it has all items as descendants.
+	// No other nodes than the roots, and their copies at the end, have that many.
+	var m, numRoots TIX
 
-		n := idx.getNode(i)
-		k := n.GetNumberOfDescendants()
+	if idx._n_nodes > 0 {
+		m = idx.getNode(idx._n_nodes - 1).GetNumberOfDescendants()
+	}
 
-		if !mset || k == m {
-			idx._roots = append(idx._roots, i)
-			m = k
-			mset = true
-		} else {
-			break
+	for i := m; i < idx._n_nodes; i++ {
+		if idx.getNode(i).GetNumberOfDescendants() == m {
+			numRoots++
 		}
 	}
 
-	// hacky fix: since the last root precedes the copy of all roots, delete it
-	if len(idx._roots) > 1 {
-		fn := idx.getNode(idx._roots[0])
-		ln := idx.getNode(idx._roots[len(idx._roots)-1])
+	numRoots /= 2
 
-		if fn.GetChildren()[0] == ln.GetChildren()[0] {
-			idx._roots = idx._roots[:len(idx._roots)-1]
-		}
+	if numRoots == 0 {
+		idx.Close()
+
+		return fmt.Errorf("file does not contain any trees")
+	}
+
+	for i := TIX(1); i <= numRoots; i++ {
+		idx._roots = append(idx._roots, idx._n_nodes-i)
 	}
 
 	idx.indexBuilt = true
-- 
2.43.0


From be9366a75fc6c464da03896f1f676eeb8b798d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 06/27] fix: replace the index file atomically in Save

Save truncated the file first: saving an index to the file it is mapped to
failed and destroyed both, and a crash or a full disk left a partial file.
---
 index/annoyindex_io.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 2dbc586..d2c61f4 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -17,13 +17,15 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		return fmt.Errorf("can't save an index without any trees")
 	}
 
-	file, err := os.Create(fileName)
+	// Write to a temporary file that replaces the old one when it is complete. The
+	// old file may be the one that this index is mapped to.
+	tmpName := fileName + ".tmp"
+
+	file, err := os.Create(tmpName)
 	if err != nil {
 		return err
 	}
 
-	defer file.Close()
-
 	if idx.logVerbose {
 		fmt.Println("Saving index to file", fileName, "with", idx._n_nodes, "nodes")
 		for i := TIX(0); i < idx._n_nodes; i++ {
@@ -36,7 +38,20 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 
 	_, err = file.Write(data)
 
+	if err == nil {
+		err = file.Sync()
+	}
+
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err == nil {
+		err = os.Rename(tmpName, fileName)
+	}
+
 	if err != nil {
+		os.Remove(tmpName)
 		return err
 	}
 
-- 
2.43.0


From 22c06aa824266a9c4cba34c25572da8b7f883295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 07/27] fix: a closed index is no longer built

Save on a closed index (or after a failing Load) overwrote the file with an
empty one, and a closed index could not be built again.
---
 index/annoyindex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 599e474..d7e71b3 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -128,6 +128,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Close() error {
 
 	idx._nodes = nil
 	idx.indexLoaded = false
+	idx.indexBuilt = false
 	idx._n_items = 0
 	idx._n_nodes = 0
 	idx._nodes_size = 0
-- 
2.43.0


From cedcac952fa7e34388eda9af9f72b8810c350b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:08 +0000
Subject: [PATCH 08/27] fix: refuse to add items to a built index

The item was written on top of a tree node.
---
 index/annoyindex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index d7e71b3..53fcb25 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -152,6 +152,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) AddItem(itemIndex TIX, v []TV) {
 		panic("Can't add items to a loaded index")
 	}
 
+	if idx.indexBuilt {
+		panic("Can't add items to a built index")
+	}
+
 	if idx.vectorLength != TIX(len(v)) {
 		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(v)))
 	}
-- 
2.43.0


From 9c7b5240b38a2ddc00c3a1ff79dea4ff281da5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:08 +0000
Subject: [PATCH 09/27] fix: build with one worker when asked for zero workers

As documented; no tree was built at all.
---
 index/policy/index_policy_multi.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/index/policy/index_policy_multi.go b/index/policy/index_policy_multi.go
index d3528d7..ba3dab3 100644
--- a/index/policy/index_policy_multi.go
+++ b/index/policy/index_policy_multi.go
@@ -25,6 +25,8 @@ func (p *annoyIndexMultiThreadedBuildPolicy) Build(
 ) {
 	if numberOfWorkers == -1 {
 		numberOfWorkers = int(utils.Max(uint32(1), uint32(runtime.NumCPU())))
+	} else if numberOfWorkers == 0 {
+		numberOfWorkers = 1
 	}
 
 	var wg sync.WaitGroup
-- 
2.43.0


From 7e036711b77e390de72606fe0382fc7aa61b1b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:09 +0000
Subject: [PATCH 10/27] fix: return an error when a file can't be read into
 memory

The allocator panicked on an empty file, and on a directory.
---
 index/memory/index_allocator_gcmem.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index 76c0244..cec56ce 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -64,6 +64,10 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 		return nil, err
 	}
 
+	if fileInfo.Size() == 0 {
+		return nil, fmt.Errorf("file %s is empty", fqFile)
+	}
+
 	data := make([]byte, fileInfo.Size())
 
 	var bytesRead int64
@@ -71,7 +75,7 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 	for bytesRead < fileInfo.Size() {
 		n, err := io.ReadFull(file, data[bytesRead:])
 		if err != nil && err != io.ErrUnexpectedEOF {
-			panic(fmt.Sprintf("Failed to read file: %v", err))
+			return nil, fmt.Errorf("failed to read file: %w", err)
 		}
 		bytesRead += int64(n)
 	}
-- 
2.43.0


From 7d3ac69209ade8e169950619a2adb6fa7fba970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 11/27] fix: default random generator for 64 bit indexes

The builder left it nil, hence Build and Close of the index panicked.
---
 builder/index.go       | 2 ++
 random/kiss64random.go | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/index.go b/builder/index.go
index 7db4da8..08f2575 100644
--- a/builder/index.go
+++ b/builder/index.go
@@ -97,6 +97,8 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 			bld.random = any(k).(interfaces.Random[TIX]) // Ugly hack to get around type system
 		case uint64:
 			// TODO: Need to completely refactor random!!
+			k := random.NewKiss64Random(uint64(0))
+			bld.random = any(k).(interfaces.Random[TIX])
 		}
 	}
 
diff --git a/random/kiss64random.go b/random/kiss64random.go
index 28958c6..d143bc0 100644
--- a/random/kiss64random.go
+++ b/random/kiss64random.go
@@ -73,6 +73,6 @@ func (r *Kiss64Random) GetSeed() uint64 {
 	return r.seed
 }
 
-func (r *Kiss64Random) CloneAndReset() *Kiss64Random {
+func (r *Kiss64Random) CloneAndReset() interfaces.Random[uint64] {
 	return NewKiss64Random(r.seed)
 }
-- 
2.43.0


From 53b816a5b176c6f6121965deb390d28063e1a613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 12/27] fix: seed GoRandom with the given seed

NewGoRandomWithSeed seeded from the clock, and SetSeed did not change what
GetSeed and CloneAndReset use.
---
 random/gorand.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/random/gorand.go b/random/gorand.go
index b237298..4b9ed10 100644
--- a/random/gorand.go
+++ b/random/gorand.go
@@ -17,7 +17,7 @@ func NewGoRandom() *GoRandom {
 }
 
 func NewGoRandomWithSeed(seed uint32) *GoRandom {
-	src := rand.NewSource(time.Now().UnixNano())
+	src := rand.NewSource(int64(seed))
 	return &GoRandom{
 		rng:  rand.New(src),
 		seed: seed,
@@ -52,6 +52,7 @@ func (r *GoRandom) GetSeed() uint32 {
 }
 
 func (r *GoRandom) SetSeed(seed uint32) {
+	r.seed = seed
 	r.rng.Seed(int64(seed))
 }
 
-- 
2.43.0


From 72ddea0210a544434cd896a1ce321c92898cb527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 13/27] fix: the angular distance of parallel vectors is never
 NaN

The squared distance may be rounded to just below zero.
---
 distance/angular/distance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index 59cf15e..3e769ae 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -162,7 +162,8 @@ func (a *angularDistanceImpl[TV, TIX]) CreateSplit(
 }
 
 func (a *angularDistanceImpl[TV, _]) NormalizedDistance(distance TV) TV {
-	return TV(math.Sqrt(float64(distance)))
+	// Rounding may give a slightly negative value
+	return TV(math.Sqrt(math.Max(float64(distance), 0)))
 }
 
 func (a *angularDistanceImpl[TV, TIX]) PQDistance(distance, margin TV, side interfaces.Side) TV {
-- 
2.43.0


From b00dd505469664f297a8d2edf55e78234077145d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 14/27] fix: rank by the dot product in the dot product
 distance

It was a copy of the angular distance.
---
 distance/dotproduct/distance.go | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/distance/dotproduct/distance.go b/distance/dotproduct/distance.go
index 0d635a3..cf489fd 100644
--- a/distance/dotproduct/distance.go
+++ b/distance/dotproduct/distance.go
@@ -150,30 +150,7 @@ func (dp *dotProductDistanceImpl[TV, TIX]) PQInitialValue() TV {
 }
 
 func (dp *dotProductDistanceImpl[TV, TIX]) Distance(x interfaces.Node[TV, TIX], y interfaces.Node[TV, TIX]) TV {
-	pp := x.GetNorm()
-	qq := y.GetNorm()
-	xv := x.GetRawVector()
-	yv := y.GetRawVector()
-
-	if pp == 0 {
-		pp = vector.DotUnsafe(xv, xv, dp.vectorLength)
-	}
-
-	if qq == 0 {
-		qq = vector.DotUnsafe(yv, yv, dp.vectorLength)
-	}
-
-	var ppqq TV
-
-	if pp != 0 {
-		ppqq = pp * qq
-	}
-
-	if ppqq > 0 {
-		pq := vector.DotUnsafe(xv, yv, dp.vectorLength)
-		return 2.0 - 2.0*pq/TV(math.Sqrt(float64(ppqq)))
-	}
-	return 2.0
+	return -vector.DotUnsafe(x.GetRawVector(), y.GetRawVector(), dp.vectorLength)
 }
 
 func (dp *dotProductDistanceImpl[TV, TIX]) PreProcess(nodes unsafe.Pointer, node_count TIX) {
-- 
2.43.0


From 7caa285555f7b44059cf654ef56a761bc985fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 15/27] fix: compute memory sizes and offsets in full width

With 32 bit indexes they wrapped at 4 GB: nodes overlapped each other.
---
 distance/angular/distance.go    | 2 +-
 distance/dotproduct/distance.go | 2 +-
 index/annoyindex.go             | 4 ++--
 index/annoyindex_io.go          | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index 3e769ae..d66536d 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -53,7 +53,7 @@ func (a *angularDistanceImpl[TV, TIX]) MapNodeToMemory(
 	mem unsafe.Pointer,
 	itemIndex TIX,
 ) interfaces.Node[TV, TIX] {
-	pos := unsafe.Add(mem, itemIndex*a.nodeSize)
+	pos := unsafe.Add(mem, uintptr(itemIndex)*uintptr(a.nodeSize))
 
 	return (*AngularNodeImpl[TV, TIX])(pos)
 }
diff --git a/distance/dotproduct/distance.go b/distance/dotproduct/distance.go
index cf489fd..c6a60d7 100644
--- a/distance/dotproduct/distance.go
+++ b/distance/dotproduct/distance.go
@@ -53,7 +53,7 @@ func (dp *dotProductDistanceImpl[TV, TIX]) MapNodeToMemory(
 	mem unsafe.Pointer,
 	itemIndex TIX,
 ) interfaces.Node[TV, TIX] {
-	pos := unsafe.Add(mem, itemIndex*dp.nodeSize)
+	pos := unsafe.Add(mem, uintptr(itemIndex)*uintptr(dp.nodeSize))
 
 	return (*DotProductNodeImpl[TV, TIX])(pos)
 }
diff --git a/index/annoyindex.go b/index/annoyindex.go
index 53fcb25..f8e75ce 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -107,7 +107,7 @@ func New[
 
 	// Pre-allocate memory for the index if hintNumIndexes is set > 0
 	if hintNumIndexes > 0 {
-		allocator.Reallocate(int(float64(distance.NodeSize()*hintNumIndexes) * reallocation_factor))
+		allocator.Reallocate(int(float64(distance.NodeSize()) * float64(hintNumIndexes) * reallocation_factor))
 	}
 
 	return index
@@ -479,7 +479,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) allocateSize(
 		}
 
 		new_node_size := utils.Max(numNodes, TIX(float64(idx._nodes_size+1)*reallocation_factor))
-		idx._nodes = idx.allocator.Reallocate(int(new_node_size * idx.nodeSize))
+		idx._nodes = idx.allocator.Reallocate(int(new_node_size) * int(idx.nodeSize))
 		idx._nodes_size = new_node_size
 
 		if threadedBuildPolicy != nil {
diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index d2c61f4..5942315 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -34,7 +34,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		}
 	}
 
-	data := unsafe.Slice((*byte)(idx._nodes), idx._n_nodes*idx.nodeSize)
+	data := unsafe.Slice((*byte)(idx._nodes), int(idx._n_nodes)*int(idx.nodeSize))
 
 	_, err = file.Write(data)
 
@@ -78,7 +78,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 
 	idx._nodes = idx.indexMemory.Ptr()
 	idx._roots = nil
-	idx._n_nodes = TIX(idx.indexMemory.Size()) / idx.nodeSize
+	idx._n_nodes = TIX(idx.indexMemory.Size() / int64(idx.nodeSize))
 
 	// The last node is the copy of a root, thus it has all items as descendants.
 	// No other nodes than the roots, and their copies at the end, have that many.
-- 
2.43.0


From 1d1e1d3d712e3017e4617b41b6d3876713d134f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 16/27] fix: check the length of the queried vector

A longer vector overwrote memory next to the node, and a shorter one was read
outside of its bounds.
---
 index/annoyindex_search.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 4e1bcf4..fc2afd9 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -1,6 +1,7 @@
 package index
 
 import (
+	"fmt"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
@@ -77,6 +78,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	numReturn, numNodesToInspect int,
 	ctx interfaces.AnnoyIndexContext[TV, TIX],
 ) (result []TIX, distances []TV) {
+	if idx.vectorLength != TIX(len(vector)) {
+		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(vector)))
+	}
+
 	bc := ctx.(*BatchContext[TV, TIX])
 	q := sort.NewPriorityQueue[TV, TIX]()
 
-- 
2.43.0


From e4576ba26c21e3d287b77433210a211e62e23f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 17/27] fix: check item indexes that are read

An index out of range read tree nodes or outside of the memory, a fault that
can't be recovered from.
---
 index/annoyindex.go        | 9 +++++++++
 index/annoyindex_search.go | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index f8e75ce..62fc60a 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -144,9 +144,18 @@ func (idx *AnnoyIndexImpl[TV, TIX]) VectorLength() TIX {
 }
 
 func (idx *AnnoyIndexImpl[TV, TIX]) GetItem(itemIndex TIX) []TV {
+	idx.checkItemIndex(itemIndex)
+
 	return idx.getNode(itemIndex).GetVector(idx.vectorLength)
 }
 
+// checkItemIndex panics when there's no such item in the index.
+func (idx *AnnoyIndexImpl[TV, TIX]) checkItemIndex(itemIndex TIX) {
+	if itemIndex >= idx._n_items {
+		panic(fmt.Sprintf("Item index out of range: %d >= %d", itemIndex, idx._n_items))
+	}
+}
+
 func (idx *AnnoyIndexImpl[TV, TIX]) AddItem(itemIndex TIX, v []TV) {
 	if idx.indexLoaded {
 		panic("Can't add items to a loaded index")
diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index fc2afd9..bc8c2e5 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -42,6 +42,9 @@ func (idx *AnnoyIndexImpl[TV, TIX]) CreateContext() interfaces.AnnoyIndexContext
 
 // GetDistance returns the distance between the two indexes.
 func (idx *AnnoyIndexImpl[TV, TIX]) GetDistance(i, j TIX) TV {
+	idx.checkItemIndex(i)
+	idx.checkItemIndex(j)
+
 	ni := idx.distance.MapNodeToMemory(idx._nodes, i)
 	nj := idx.distance.MapNodeToMemory(idx._nodes, j)
 
@@ -57,6 +60,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByItem(
 	numReturn, numNodesToInspect int,
 	ctx interfaces.AnnoyIndexContext[TV, TIX],
 ) (result []TIX, distances []TV) {
+	idx.checkItemIndex(item)
 
 	node := idx.distance.MapNodeToMemory(
 		idx._nodes,
-- 
2.43.0


From 5b5778637f3c871606d7ce82655726ed8351490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 18/27] fix: keep PartialSortSlice inside of its range

Slices with more than 20 elements were sorted as a whole.
---
 sort/partial_sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort/partial_sort.go b/sort/partial_sort.go
index 30dd1fa..9be8240 100644
--- a/sort/partial_sort.go
+++ b/sort/partial_sort.go
@@ -16,7 +16,7 @@ func PartialSortSlice[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 	N := middle - begin
 
 	if end-begin > 20 && end-begin < 5000000 {
-		SortPairs(s)
+		SortPairs(s[begin:end])
 		return
 	}
 
-- 
2.43.0


From fa639ec3765071214d153030ffbf4989a72d7970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 19/27] fix: only unregister the closed allocation

Closing an allocation also removed another one that was opened for the same
file later on.
---
 index/memory/index_allocator_gcmem.go | 4 +++-
 index/memory/index_allocator_mmap.go  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index cec56ce..db1e0e3 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -31,7 +31,9 @@ func (fi *fileIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (fi *fileIndexAllocation) Close() error {
-	delete(fi.parent.indexes, fi.fqFile)
+	if fi.parent.indexes[fi.fqFile] == fi {
+		delete(fi.parent.indexes, fi.fqFile)
+	}
 
 	fi.data = nil
 	fi.ptr = nil
diff --git a/index/memory/index_allocator_mmap.go b/index/memory/index_allocator_mmap.go
index aa320df..f481023 100644
--- a/index/memory/index_allocator_mmap.go
+++ b/index/memory/index_allocator_mmap.go
@@ -31,7 +31,9 @@ func (mi *mmapIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (mi *mmapIndexAllocation) Close() error {
-	delete(mi.parent.indexes, mi.fqFile)
+	if mi.parent.indexes[mi.fqFile] == mi {
+		delete(mi.parent.indexes, mi.fqFile)
+	}
 
 	var err error
 
-- 
2.43.0


From 18063227c11446c0752ed34fcd02d215a8e5aab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 20/27] fix: do not share memory between indexes of the same
 builder

Indexes from a second call to Build overwrote the items of the first.
---
 builder/index.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/builder/index.go b/builder/index.go
index 08f2575..dd1b9cf 100644
--- a/builder/index.go
+++ b/builder/index.go
@@ -80,8 +80,10 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 		bld.buildPolicy = policy.SingleWorker()
 	}
 
-	if bld.allocator == nil {
-		bld.allocator = memory.GoGCIndexAllocator()
+	// Each index has its own memory
+	allocator := bld.allocator
+	if allocator == nil {
+		allocator = memory.GoGCIndexAllocator()
 	}
 
 	if bld.indexMemoryAllocator == nil {
@@ -106,7 +108,7 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 		bld.random,
 		bld.distance,
 		bld.buildPolicy,
-		bld.allocator,
+		allocator,
 		bld.indexMemoryAllocator,
 		bld.sorter,
 		bld.logVerbose,
-- 
2.43.0


From cc6c507f22941c2d55a372c6264bbe4fcff3cb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 21/27] fix: refuse to load a file without the copies of its
 roots

---
 index/annoyindex_io.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 5942315..204f2a1 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -96,6 +96,21 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 
 	numRoots /= 2
 
+	// A file without trees, e.g. with nothing but items, has no such copies.
+	roots := map[string]bool{}
+
+	for i := m; i < idx._n_nodes-numRoots; i++ {
+		if idx.getNode(i).GetNumberOfDescendants() == m {
+			roots[string(idx.getNodeData(i))] = true
+		}
+	}
+
+	for i := TIX(1); i <= numRoots; i++ {
+		if !roots[string(idx.getNodeData(idx._n_nodes-i))] {
+			numRoots = 0
+		}
+	}
+
 	if numRoots == 0 {
 		idx.Close()
 
@@ -138,3 +153,8 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 
 	return nil
 }
+
+// getNodeData returns the memory of the node.
+func (idx *AnnoyIndexImpl[TV, TIX]) getNodeData(index TIX) []byte {
+	return unsafe.Slice((*byte)(utils.GetPtr(idx.getNode(index))), int(idx.nodeSize))
+}
-- 
2.43.0


From d8d86b6a5d456222bb00bd128e16f2297fc41302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 22/27] fix: keep the other allocations of a file registered

---
 index/memory/index_allocator_gcmem.go | 37 +++++++++++++++++++++------
 index/memory/index_allocator_mmap.go  | 37 +++++++++++++++++++++------
 2 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index db1e0e3..3a8cb7e 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -10,7 +10,8 @@ import (
 )
 
 type fileIndexerAllocator struct {
-	indexes map[string]*fileIndexAllocation
+	// indexes are the open allocations of each file, the latest one last.
+	indexes map[string][]*fileIndexAllocation
 }
 
 type fileIndexAllocation struct {
@@ -31,9 +32,7 @@ func (fi *fileIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (fi *fileIndexAllocation) Close() error {
-	if fi.parent.indexes[fi.fqFile] == fi {
-		delete(fi.parent.indexes, fi.fqFile)
-	}
+	fi.parent.remove(fi)
 
 	fi.data = nil
 	fi.ptr = nil
@@ -43,13 +42,35 @@ func (fi *fileIndexAllocation) Close() error {
 
 func FileIndexMemoryAllocator() *fileIndexerAllocator {
 	return &fileIndexerAllocator{
-		indexes: map[string]*fileIndexAllocation{},
+		indexes: map[string][]*fileIndexAllocation{},
 	}
 }
 
 func (mm *fileIndexerAllocator) Get(fqFile string) (interfaces.AllocatedIndex, bool) {
-	index, ok := mm.indexes[fqFile]
-	return index, ok
+	open := mm.indexes[fqFile]
+	if len(open) == 0 {
+		return nil, false
+	}
+
+	return open[len(open)-1], true
+}
+
+// remove unregisters the allocation, others of the same file are kept.
+func (mm *fileIndexerAllocator) remove(allocation *fileIndexAllocation) {
+	open := mm.indexes[allocation.fqFile]
+
+	for i := range open {
+		if open[i] == allocation {
+			open = append(open[:i], open[i+1:]...)
+			break
+		}
+	}
+
+	if len(open) == 0 {
+		delete(mm.indexes, allocation.fqFile)
+	} else {
+		mm.indexes[allocation.fqFile] = open
+	}
 }
 
 func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex, error) {
@@ -95,6 +116,6 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 		data:   data,
 	}
 
-	mm.indexes[fqFile] = fi
+	mm.indexes[fqFile] = append(mm.indexes[fqFile], fi)
 	return fi, nil
 }
diff --git a/index/memory/index_allocator_mmap.go b/index/memory/index_allocator_mmap.go
index f481023..1a902fe 100644
--- a/index/memory/index_allocator_mmap.go
+++ b/index/memory/index_allocator_mmap.go
@@ -9,7 +9,8 @@ import (
 )
 
 type mmapIndexAllocator struct {
-	indexes map[string]*mmapIndexAllocation
+	// indexes are the open allocations of each file, the latest one last.
+	indexes map[string][]*mmapIndexAllocation
 }
 
 type mmapIndexAllocation struct {
@@ -31,9 +32,7 @@ func (mi *mmapIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (mi *mmapIndexAllocation) Close() error {
-	if mi.parent.indexes[mi.fqFile] == mi {
-		delete(mi.parent.indexes, mi.fqFile)
-	}
+	mi.parent.remove(mi)
 
 	var err error
 
@@ -56,13 +55,35 @@ func (mi *mmapIndexAllocation) Close() error {
 
 func MmapIndexAllocator() *mmapIndexAllocator {
 	return &mmapIndexAllocator{
-		indexes: map[string]*mmapIndexAllocation{},
+		indexes: map[string][]*mmapIndexAllocation{},
 	}
 }
 
 func (mm *mmapIndexAllocator) Get(fqFile string) (interfaces.AllocatedIndex, bool) {
-	index, ok := mm.indexes[fqFile]
-	return index, ok
+	open := mm.indexes[fqFile]
+	if len(open) == 0 {
+		return nil, false
+	}
+
+	return open[len(open)-1], true
+}
+
+// remove unregisters the allocation, others of the same file are kept.
+func (mm *mmapIndexAllocator) remove(allocation *mmapIndexAllocation) {
+	open := mm.indexes[allocation.fqFile]
+
+	for i := range open {
+		if open[i] == allocation {
+			open = append(open[:i], open[i+1:]...)
+			break
+		}
+	}
+
+	if len(open) == 0 {
+		delete(mm.indexes, allocation.fqFile)
+	} else {
+		mm.indexes[allocation.fqFile] = open
+	}
 }
 
 func (mm *mmapIndexAllocator) Open(fqFile string) (interfaces.AllocatedIndex, error) {
@@ -101,6 +122,6 @@ func (mm *mmapIndexAllocator) Open(fqFile string) (interfaces.AllocatedIndex, er
 		data:   data,
 	}
 
-	mm.indexes[fqFile] = mi
+	mm.indexes[fqFile] = append(mm.indexes[fqFile], mi)
 	return mi, nil
 }
-- 
2.43.0


From d25c17a39dd7df0d5e36762f088deff6eaabeab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:23 +0000
Subject: [PATCH 23/27] fix: default search budget no longer overflows for huge
 result counts

---
 index/annoyindex_search.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index bc8c2e5..044edfb 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -90,7 +90,14 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	q := sort.NewPriorityQueue[TV, TIX]()
 
 	if numNodesToInspect == -1 {
-		numNodesToInspect = numReturn * len(idx._roots)
+		numNodesToInspect = numReturn
+
+		// No tree has more than all the items, and the product must not overflow
+		if numNodesToInspect > int(idx._n_items) {
+			numNodesToInspect = int(idx._n_items)
+		}
+
+		numNodesToInspect *= len(idx._roots)
 	}
 
 	for i := range idx._roots {
-- 
2.43.0


From c138aab41e11c07c5fd27e9443b741f1e91c7304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:04 +0000
Subject: [PATCH 24/27] fix: verbose builds print nodes while holding the node
 lock

Another worker may move the nodes as soon as the shared lock is released.
---
 index/annoyindex.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 62fc60a..2f725b3 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -347,12 +347,12 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 			m.SetChildren(children)
 		}
 
-		threadedBuildPolicy.UnlockSharedNodes()
-
 		if idx.logVerbose {
 			fmt.Printf("added 1:node[item=%d] - %s\n", item, utils.DumpNode(idx.distance, m))
 		}
 
+		threadedBuildPolicy.UnlockSharedNodes()
+
 		return item
 	}
 
@@ -459,12 +459,13 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 	dst := idx.getNode(item)
 
 	utils.CopyNode(dst, m, idx.nodeSize)
-	idx.buildPolicy.UnlockSharedNodes()
 
 	if idx.logVerbose {
 		fmt.Printf("added 2:node[item=%d] - %s\n", item, utils.DumpNode(idx.distance, dst))
 	}
 
+	idx.buildPolicy.UnlockSharedNodes()
+
 	return item
 }
 
-- 
2.43.0


From 6429a96eb8aafeb82d6d03086aa21585ee70327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:22 +0000
Subject: [PATCH 25/27] fix: restart the Kiss generators when they are seeded

SetSeed left most of the state as it was, so that a generator that had been
drawn from did not continue with the stream of its new seed.
---
 random/kiss32random.go | 3 +--
 random/kiss64random.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/random/kiss32random.go b/random/kiss32random.go
index 3cfa124..efac896 100644
--- a/random/kiss32random.go
+++ b/random/kiss32random.go
@@ -64,8 +64,7 @@ func (r *Kiss32Random[TIX]) NextIndex(n TIX) TIX {
 }
 
 func (r *Kiss32Random[TIX]) SetSeed(seed TIX) {
-	r.x = seed
-	r.seed = seed
+	*r = *NewKiss32Random(seed)
 }
 
 func (r *Kiss32Random[TIX]) GetSeed() TIX {
diff --git a/random/kiss64random.go b/random/kiss64random.go
index d143bc0..b74aacc 100644
--- a/random/kiss64random.go
+++ b/random/kiss64random.go
@@ -65,8 +65,7 @@ func (r *Kiss64Random) NextIndex(n uint64) uint64 {
 }
 
 func (r *Kiss64Random) SetSeed(seed uint64) {
-	r.x = seed
-	r.seed = seed
+	*r = *NewKiss64Random(seed)
 }
 
 func (r *Kiss64Random) GetSeed() uint64 {
-- 
2.43.0


From 7e2d99f535f1a15623bce904b861488754dc4883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:21 +0000
Subject: [PATCH 26/27] fix: save through a temporary file that nobody else
 uses

---
 index/annoyindex_io.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 204f2a1..278e30d 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -3,6 +3,7 @@ package index
 import (
 	"fmt"
 	"os"
+	"path/filepath"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/utils"
@@ -19,13 +20,13 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 
 	// Write to a temporary file that replaces the old one when it is complete. The
 	// old file may be the one that this index is mapped to.
-	tmpName := fileName + ".tmp"
-
-	file, err := os.Create(tmpName)
+	file, err := createTemp(filepath.Dir(fileName))
 	if err != nil {
 		return err
 	}
 
+	tmpName := file.Name()
+
 	if idx.logVerbose {
 		fmt.Println("Saving index to file", fileName, "with", idx._n_nodes, "nodes")
 		for i := TIX(0); i < idx._n_nodes; i++ {
@@ -154,6 +155,18 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 	return nil
 }
 
+// createTemp creates a file in the directory that nobody else uses.
+func createTemp(dir string) (*os.File, error) {
+	for i := 0; ; i++ {
+		name := filepath.Join(dir, fmt.Sprintf(".goannoy-%d-%d.tmp", os.Getpid(), i))
+
+		file, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
+		if !os.IsExist(err) {
+			return file, err
+		}
+	}
+}
+
 // getNodeData returns the memory of the node.
 func (idx *AnnoyIndexImpl[TV, TIX]) getNodeData(index TIX) []byte {
 	return unsafe.Slice((*byte)(utils.GetPtr(idx.getNode(index))), int(idx.nodeSize))
-- 
2.43.0


From ce43ce62c6597d289b330bec120d5a968b5bde10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:54 +0000
Subject: [PATCH 27/27] fix: let several indexes use a loader at the same time

---
 index/memory/index_allocator_gcmem.go | 11 +++++++++++
 index/memory/index_allocator_mmap.go  | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index 3a8cb7e..cc75324 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -4,12 +4,14 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sync"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
 )
 
 type fileIndexerAllocator struct {
+	mu sync.Mutex
 	// indexes are the open allocations of each file, the latest one last.
 	indexes map[string][]*fileIndexAllocation
 }
@@ -47,6 +49,9 @@ func FileIndexMemoryAllocator() *fileIndexerAllocator {
 }
 
 func (mm *fileIndexerAllocator) Get(fqFile string) (interfaces.AllocatedIndex, bool) {
+	mm.mu.Lock()
+	defer mm.mu.Unlock()
+
 	open := mm.indexes[fqFile]
 	if len(open) == 0 {
 		return nil, false
@@ -57,6 +62,9 @@ func (mm *fileIndexerAllocator) Get(fqFile string) (interfaces.AllocatedIndex, b
 
 // remove unregisters the allocation, others of the same file are kept.
 func (mm *fileIndexerAllocator) remove(allocation *fileIndexAllocation) {
+	mm.mu.Lock()
+	defer mm.mu.Unlock()
+
 	open := mm.indexes[allocation.fqFile]
 
 	for i := range open {
@@ -116,6 +124,9 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 		data:   data,
 	}
 
+	mm.mu.Lock()
 	mm.indexes[fqFile] = append(mm.indexes[fqFile], fi)
+	mm.mu.Unlock()
+
 	return fi, nil
 }
diff --git a/index/memory/index_allocator_mmap.go b/index/memory/index_allocator_mmap.go
index 1a902fe..96fa6d9 100644
--- a/index/memory/index_allocator_mmap.go
+++ b/index/memory/index_allocator_mmap.go
@@ -2,6 +2,7 @@ package memory
 
 import (
 	"os"
+	"sync"
 	"syscall"
 	"unsafe"
 
@@ -9,6 +10,7 @@ import (
 )
 
 type mmapIndexAllocator struct {
+	mu sync.Mutex
 	// indexes are the open allocations of each file, the latest one last.
 	indexes map[string][]*mmapIndexAllocation
 }
@@ -60,6 +62,9 @@ func MmapIndexAllocator() *mmapIndexAllocator {
 }
 
 func (mm *mmapIndexAllocator) Get(fqFile string) (interfaces.AllocatedIndex, bool) {
+	mm.mu.Lock()
+	defer mm.mu.Unlock()
+
 	open := mm.indexes[fqFile]
 	if len(open) == 0 {
 		return nil, false
@@ -70,6 +75,9 @@ func (mm *mmapIndexAllocator) Get(fqFile string) (interfaces.AllocatedIndex, boo
 
 // remove unregisters the allocation, others of the same file are kept.
 func (mm *mmapIndexAllocator) remove(allocation *mmapIndexAllocation) {
+	mm.mu.Lock()
+	defer mm.mu.Unlock()
+
 	open := mm.indexes[allocation.fqFile]
 
 	for i := range open {
@@ -122,6 +130,9 @@ func (mm *mmapIndexAllocator) Open(fqFile string) (interfaces.AllocatedIndex, er
 		data:   data,
 	}
 
+	mm.mu.Lock()
 	mm.indexes[fqFile] = append(mm.indexes[fqFile], mi)
+	mm.mu.Unlock()
+
 	return mi, nil
 }
-- 
2.43.0

