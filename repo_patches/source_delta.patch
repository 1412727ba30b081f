From 724b9096710d07876310c869638ad71bb44af03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 01/20] fix: parallel: wait for the right branch when the left
 one panics

A panic in the left branch of a fork left the function without waiting for
the right branch, so functions kept running (or were only started) after the
call had panicked, contrary to 'returns only when all functions have
terminated'.
---
 parallel/parallel.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index 53291d8..cae05dc 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -32,6 +32,7 @@ func Reduce(
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left branch panics
 	if len(moreFunctions) == 1 {
 		go func() {
 			defer func() {
@@ -80,6 +81,7 @@ func ReduceFloat64(
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left branch panics
 	if len(moreFunctions) == 1 {
 		go func() {
 			defer func() {
@@ -127,6 +129,7 @@ func ReduceFloat64Sum(functions ...func() float64) float64 {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left branch panics
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -175,6 +178,7 @@ func ReduceFloat64Product(functions ...func() float64) float64 {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left branch panics
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -224,6 +228,7 @@ func ReduceInt(
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left branch panics
 	if len(moreFunctions) == 1 {
 		go func() {
 			defer func() {
@@ -271,6 +276,7 @@ func ReduceIntSum(functions ...func() int) int {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left branch panics
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -319,6 +325,7 @@ func ReduceIntProduct(functions ...func() int) int {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left branch panics
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -368,6 +375,7 @@ func ReduceString(
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left branch panics
 	if len(moreFunctions) == 1 {
 		go func() {
 			defer func() {
@@ -415,6 +423,7 @@ func ReduceStringSum(functions ...func() string) string {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left branch panics
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -461,6 +470,7 @@ func Do(thunks ...func()) {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left branch panics
 	switch len(thunks) {
 	case 2:
 		go func() {
@@ -507,6 +517,7 @@ func And(predicates ...func() bool) bool {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left branch panics
 	switch len(predicates) {
 	case 2:
 		go func() {
@@ -554,6 +565,7 @@ func Or(predicates ...func() bool) bool {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait() // also when the left branch panics
 	switch len(predicates) {
 	case 2:
 		go func() {
@@ -620,6 +632,7 @@ func Range(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left branch panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -679,6 +692,7 @@ func RangeAnd(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left branch panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -738,6 +752,7 @@ func RangeOr(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left branch panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -799,6 +814,7 @@ func RangeReduce(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left branch panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -861,6 +877,7 @@ func RangeReduceInt(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left branch panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -921,6 +938,7 @@ func RangeReduceIntSum(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left branch panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -981,6 +999,7 @@ func RangeReduceIntProduct(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left branch panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -1043,6 +1062,7 @@ func RangeReduceFloat64(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left branch panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -1103,6 +1123,7 @@ func RangeReduceFloat64Sum(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left branch panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -1163,6 +1184,7 @@ func RangeReduceFloat64Product(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left branch panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -1225,6 +1247,7 @@ func RangeReduceString(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left branch panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -1285,6 +1308,7 @@ func RangeReduceStringSum(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait() // also when the left branch panics
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
-- 
2.43.0


From 51b82c523af6732d5386f0674d74ad47192d0722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 02/20] fix: Range functions panic for n < 0 on an empty range
 too

They are documented to panic if n < 0, but invoked the range function when
low == high.
---
 internal/internal.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/internal.go b/internal/internal.go
index 9fe961d..d0cfcf8 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -10,15 +10,15 @@ import (
 // ComputeNofBatches divides the size of the range (high - low) by n. If n is 0,
 // a default is used that takes runtime.GOMAXPROCS(0) into account.
 func ComputeNofBatches(low, high, n int) (batches int) {
+	if n < 0 {
+		panic(fmt.Sprintf("invalid number of batches: %v", n))
+	}
 	switch size := high - low; {
 	case size > 0:
-		switch {
-		case n == 0:
+		if n == 0 {
 			batches = 2 * runtime.GOMAXPROCS(0)
-		case n > 0:
+		} else {
 			batches = n
-		default:
-			panic(fmt.Sprintf("invalid number of batches: %v", n))
 		}
 		if batches > size {
 			batches = size
-- 
2.43.0


From b5e74b33ac98ec70cb5a8f08864321cdb938332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 03/20] fix: sort: IsSorted no longer reads the collection
 after it has returned

It used speculative.And, which returns without waiting for the other half, so
that Sort swapped elements, and callers modified them, while goroutines of
IsSorted were still calling Less.
---
 sort/sort.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sort/sort.go b/sort/sort.go
index 2a6e8bf..c74fafa 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -5,7 +5,7 @@ import (
 	"sort"
 	"sync/atomic"
 
-	"github.com/exascience/pargo/speculative"
+	"github.com/exascience/pargo/parallel"
 )
 
 // SequentialSorter is a type, typically a collection, that can be sequentially
@@ -34,7 +34,6 @@ func IsSorted(data sort.Interface) bool {
 		}
 	}
 	var done int32
-	defer atomic.StoreInt32(&done, 1)
 	var pTest func(int, int) bool
 	pTest = func(index, size int) bool {
 		if size < qsortGrainSize {
@@ -43,13 +42,16 @@ func IsSorted(data sort.Interface) bool {
 					return false
 				}
 				if data.Less(i, i-1) {
+					atomic.StoreInt32(&done, 1)
 					return false
 				}
 			}
 			return true
 		}
 		half := size / 2
-		result := speculative.And(
+		// Not speculative.And: no goroutine may still read data after IsSorted has
+		// returned, because the caller is free to modify it then.
+		result := parallel.And(
 			func() bool { return pTest(index, half) },
 			func() bool { return pTest(index+half, size-half) },
 		)
-- 
2.43.0


From 2b8f0e2f3e58c39926f677946fab31bc540a6c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 04/20] fix: sort: Float64Slice.Less orders NaN values as
 SequentialSort does

With NaN values the two disagreed, so that the parallel algorithms left slices
unsorted.
---
 sort/sort.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sort/sort.go b/sort/sort.go
index c74fafa..159e3e7 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -114,8 +114,9 @@ func (s Float64Slice) Len() int {
 	return len(s)
 }
 
+// Less orders NaN values before other values, as SequentialSort does.
 func (s Float64Slice) Less(i, j int) bool {
-	return s[i] < s[j]
+	return s[i] < s[j] || (s[i] != s[i] && s[j] == s[j])
 }
 
 func (s Float64Slice) Swap(i, j int) {
-- 
2.43.0


From c51517a535b0678b58092f7bde79516a346b644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 05/20] fix: sync: ParallelReduce* wait for the right branch
 when the left one panics

A panic in the left branch left the function while reducers of the right
branch were still running or not yet started, contrary to 'returns only when
all goroutines it spawns have terminated'.
---
 sync/map.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sync/map.go b/sync/map.go
index dda4163..506c1ba 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -689,6 +689,7 @@ func (m *Map) ParallelReduce(
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left branch panics
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -752,6 +753,7 @@ func (m *Map) ParallelReduceFloat64(
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left branch panics
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -811,6 +813,7 @@ func (m *Map) ParallelReduceFloat64Sum(reduce func(map[interface{}]interface{})
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left branch panics
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -870,6 +873,7 @@ func (m *Map) ParallelReduceFloat64Product(reduce func(map[interface{}]interface
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left branch panics
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -930,6 +934,7 @@ func (m *Map) ParallelReduceInt(
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left branch panics
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -989,6 +994,7 @@ func (m *Map) ParallelReduceIntSum(reduce func(map[interface{}]interface{}) int)
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left branch panics
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -1048,6 +1054,7 @@ func (m *Map) ParallelReduceIntProduct(reduce func(map[interface{}]interface{})
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left branch panics
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -1111,6 +1118,7 @@ func (m *Map) ParallelReduceString(
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left branch panics
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -1170,6 +1178,7 @@ func (m *Map) ParallelReduceStringSum(reduce func(map[interface{}]interface{}) s
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait() // also when the left branch panics
 		switch len(splits) {
 		case 2:
 			go func() {
-- 
2.43.0


From da45dfeb92a1bfe90205abc822199b5e5288703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 06/20] fix: sync: SpeculativeRange stops on false, not on true

SpeculativeRange used speculative.Range, which returns early when a range
function returns true. It thus returned before all keys were visited when no
invocation had returned false, and waited for everything when one had.
---
 sync/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/map.go b/sync/map.go
index 506c1ba..99c5a13 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -271,7 +271,7 @@ func (m *Map) ParallelRange(f func(key, value interface{})) {
 // reflect any mapping for that key from any point during the Range call.
 func (m *Map) SpeculativeRange(f func(key, value interface{}) bool) {
 	splits := m.splits
-	speculative.Range(0, len(splits), 0, func(low, high int) bool {
+	speculative.RangeAnd(0, len(splits), 0, func(low, high int) bool {
 		for i := low; i < high; i++ {
 			if !splits[i].srange(f) {
 				return false
-- 
2.43.0


From 25edc561cf491d1b43a3bfc408c72d5e743ee15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 07/20] fix: sync: Modify and DeleteOrCompute unlock the split
 when the callback panics

A panic in the modifier or computer function left the split locked for good:
a program that recovered from it deadlocked on the next access.
---
 sync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/map.go b/sync/map.go
index 99c5a13..e1e5bed 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -159,13 +159,13 @@ func (m *Map) DeleteOrStore(key Hasher, value interface{}) (actual interface{},
 func (m *Map) DeleteOrCompute(key Hasher, computer func() interface{}) (actual interface{}, deleted bool) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock() // also when the callback panics
 	if actual, deleted = split.Map[key]; deleted {
 		delete(split.Map, key)
 	} else {
 		actual = computer()
 		split.Map[key] = actual
 	}
-	split.Unlock()
 	return
 }
 
@@ -187,13 +187,13 @@ func (m *Map) Modify(
 ) (replacement interface{}, storeNotDelete bool) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock() // also when the callback panics
 	value, ok := split.Map[key]
 	if replacement, storeNotDelete = modifier(value, ok); storeNotDelete {
 		split.Map[key] = replacement
 	} else {
 		delete(split.Map, key)
 	}
-	split.Unlock()
 	return
 }
 
-- 
2.43.0


From d24c02c0f68c0a6b4d24ca4e31a0a6a45e10caee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:08 +0000
Subject: [PATCH 08/20] fix: pipeline: arrays can be used as sources

Pipeline.Source panicked for every array, since an array in an interface is
not addressable and therefore cannot be sliced.
---
 pipeline/source.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pipeline/source.go b/pipeline/source.go
index f365b33..5a1e32c 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -34,6 +34,11 @@ type sliceSource struct {
 }
 
 func newSliceSource(value reflect.Value) *sliceSource {
+	if (value.Kind() == reflect.Array) && !value.CanAddr() {
+		array := reflect.New(value.Type()).Elem()
+		array.Set(value)
+		value = array
+	}
 	size := value.Len()
 	return &sliceSource{value: value.Slice(0, size), size: size}
 }
-- 
2.43.0


From 9e74c4f299775fa4d998e56dd084e24db6e0ab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:48 +0000
Subject: [PATCH 09/20] fix: pipeline: batches of a slice source do not share
 capacity

A receiver that appended to its batch overwrote the first elements of the
following batches, which other goroutines may be processing.
---
 pipeline/source.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index 5a1e32c..e91257c 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -62,7 +62,12 @@ func (src *sliceSource) Fetch(n int) (fetched int) {
 		src.size = 0
 	default:
 		fetched = n
-		src.data = src.value.Slice(0, n).Interface()
+		batch := src.value.Slice(0, n)
+		if batch.Kind() == reflect.Slice {
+			// appending to the batch must not overwrite subsequent batches
+			batch = batch.Slice3(0, n, n)
+		}
+		src.data = batch.Interface()
 		src.value = src.value.Slice(n, src.size)
 		src.size -= n
 	}
-- 
2.43.0


From f5ce6126263c285a2c5d839a5e109099ac0588a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:34 +0000
Subject: [PATCH 10/20] fix: pipeline: no batch is larger than maxBatchSize

The first batch of a source of unknown size ignored maxBatchSize when batchInc
was larger, and large sums of both overflowed to a negative batch size, so that
the rest of the source was dropped.
---
 pipeline/pipeline.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index ebe329b..902e9d8 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -242,14 +242,16 @@ func (p *Pipeline) finalizeVariableBatchSize() {
 	if p.maxBatchSize < 1 {
 		p.maxBatchSize = defaultMaxBatchSize
 	}
+	if p.batchInc > p.maxBatchSize {
+		p.batchInc = p.maxBatchSize
+	}
 }
 
 func (p *Pipeline) nextBatchSize(batchSize int) (result int) {
-	result = batchSize + p.batchInc
-	if result > p.maxBatchSize {
-		result = p.maxBatchSize
+	if batchSize > p.maxBatchSize-p.batchInc {
+		return p.maxBatchSize
 	}
-	return
+	return batchSize + p.batchInc
 }
 
 // RunWithContext initiates pipeline execution.
-- 
2.43.0


From 5544eb316d09f24a5a86d0e6ddcac0444ddd7d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:09 +0000
Subject: [PATCH 11/20] fix: pipeline: make nodes before a StrictOrd node
 ordered before they begin

They were made ordered only after Begin had started their goroutines: a Seq
node went on as an unordered one, so that it could block on a batch that is
not yet due while the due batch waited for it (deadlock, for example with Par,
Seq, StrictOrd), and LimitedPar goroutines read the changing fields
unsynchronised.
---
 pipeline/pipeline.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 902e9d8..7fd20e2 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -277,6 +277,20 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 	}
 	p.ctx, p.cancel = ctx, cancel
 	dataSize := p.source.Prepare(p.ctx)
+	// This must happen before the nodes begin, since Begin starts their goroutines.
+	for index := len(p.nodes) - 1; index >= 0; index-- {
+		if _, ok := p.nodes[index].(*strictordnode); ok {
+			for index = index - 1; index >= 0; index-- {
+				switch node := p.nodes[index].(type) {
+				case *seqnode:
+					node.kind = Ordered
+				case *lparnode:
+					node.makeOrdered()
+				}
+			}
+			break
+		}
+	}
 	filteredSize := dataSize
 	for index := 0; index < len(p.nodes); {
 		if p.nodes[index].Begin(p, index, &filteredSize) {
@@ -296,19 +310,6 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 				index++
 			}
 		}
-		for index := len(p.nodes) - 1; index >= 0; index-- {
-			if _, ok := p.nodes[index].(*strictordnode); ok {
-				for index = index - 1; index >= 0; index-- {
-					switch node := p.nodes[index].(type) {
-					case *seqnode:
-						node.kind = Ordered
-					case *lparnode:
-						node.makeOrdered()
-					}
-				}
-				break
-			}
-		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
 			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
-- 
2.43.0


From ca48bb644414f9437d94f1b7faf42b4ae3206c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:08 +0000
Subject: [PATCH 12/20] fix: pipeline: nodes forward batches according to their
 current index

Seq, Ord, StrictOrd and LimitedPar nodes used the index they had when they
began. When nodes that turned out to have no receivers let their neighbours
merge, later nodes moved up, and batches skipped the node after them.
---
 pipeline/lparnode.go      | 10 +++++-----
 pipeline/seqnode.go       | 13 +++++++------
 pipeline/strictordnode.go |  8 ++++----
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index aff3d1d..5156b2f 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -48,7 +48,7 @@ func (node *lparnode) TryMerge(next Node) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *lparnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Parallel, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -77,7 +77,7 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 							node.cond.L.Unlock()
 							node.cond.Broadcast()
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -87,7 +87,7 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *lparnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	if node.ordered {
 		node.cond.L.Lock()
 		defer node.cond.L.Unlock()
@@ -96,7 +96,7 @@ func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
 				select {
 				case <-p.ctx.Done():
 					return
-				case node.channel <- dataBatch{seqNo, data}:
+				case node.channel <- dataBatch{index, seqNo, data}:
 					return
 				}
 			}
@@ -111,7 +111,7 @@ func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch{seqNo, data}:
+	case node.channel <- dataBatch{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index a049358..2c773c0 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -6,6 +6,7 @@ import (
 
 type (
 	dataBatch struct {
+		index int
 		seqNo int
 		data  interface{}
 	}
@@ -45,7 +46,7 @@ func (node *seqnode) TryMerge(next Node) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *seqnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, node.kind, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +64,7 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 						if !ok {
 							return
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -85,7 +86,7 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 						case batch.seqNo > run:
 							stash[batch.seqNo] = batch.data
 						default:
-							feed(p, node.receivers, index, batch.seqNo, batch.data)
+							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 						checkStash:
 							for {
 								select {
@@ -98,7 +99,7 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 										break checkStash
 									}
 									delete(stash, run)
-									feed(p, node.receivers, index, run, data)
+									feed(p, node.receivers, batch.index, run, data)
 								}
 							}
 						}
@@ -113,11 +114,11 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *seqnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *seqnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch{seqNo, data}:
+	case node.channel <- dataBatch{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 74a1915..24402b3 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -38,7 +38,7 @@ func (node *strictordnode) TryMerge(next Node) bool {
 }
 
 //Implements the Begin method of the Node interface.
-func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *strictordnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Ordered, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +63,7 @@ func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bo
 					node.run++
 					node.cond.L.Unlock()
 					node.cond.Broadcast()
-					feed(p, node.receivers, index, batch.seqNo, batch.data)
+					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 				}
 			}
 		}()
@@ -72,7 +72,7 @@ func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bo
 }
 
 // Implements the Feed method of the Node interface.
-func (node *strictordnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *strictordnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	node.cond.L.Lock()
 	defer node.cond.L.Unlock()
 	for {
@@ -80,7 +80,7 @@ func (node *strictordnode) Feed(p *Pipeline, _ int, seqNo int, data interface{})
 			select {
 			case <-p.ctx.Done():
 				return
-			case node.channel <- dataBatch{seqNo, data}:
+			case node.channel <- dataBatch{index, seqNo, data}:
 				return
 			}
 		}
-- 
2.43.0


From 8cb443fb3563178cbfc74c683130cda7c071e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:08 +0000
Subject: [PATCH 13/20] fix: pipeline: a cancelled pipeline stops fetching

After Cancel, or after its context was cancelled, the pipeline went on fetching
from its source until the source was depleted, forever for an endless one.
---
 pipeline/pipeline.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 7fd20e2..1bab2b0 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -314,11 +314,14 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 			p.finalizeVariableBatchSize()
 			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
+				cancelled := p.ctx.Err() != nil
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
 					return
 				} else if p.Err() != nil {
 					return
+				} else if cancelled {
+					break
 				}
 			}
 		} else {
@@ -328,11 +331,14 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 			}
 			for seqNo := 0; p.source.Fetch(batchSize) > 0; seqNo++ {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
+				cancelled := p.ctx.Err() != nil
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
 					return
 				} else if p.Err() != nil {
 					return
+				} else if cancelled {
+					break
 				}
 			}
 		}
-- 
2.43.0


From ed0b16172b3fa74f1109f1e33f172f24c6c54863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:08 +0000
Subject: [PATCH 14/20] fix: pipeline: RunWithContext accesses the error value
 under its lock

It read and wrote the error value without the lock, racing with SetErr in other
goroutines: an error for which SetErr had returned true could be overwritten.
---
 pipeline/pipeline.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 1bab2b0..6687791 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -272,7 +272,7 @@ func (p *Pipeline) nextBatchSize(batchSize int) (result int) {
 // data source and sends them to the nodes. Once the data source is depleted,
 // the nodes are informed that the end of the data source has been reached.
 func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc) {
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	p.ctx, p.cancel = ctx, cancel
@@ -299,7 +299,7 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 			p.nodes = append(p.nodes[:index], p.nodes[index+1:]...)
 		}
 	}
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	if len(p.nodes) > 0 {
@@ -346,8 +346,8 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 	for _, node := range p.nodes {
 		node.End()
 	}
-	if p.err == nil {
-		p.err = p.source.Err()
+	if err := p.source.Err(); err != nil {
+		p.SetErr(err)
 	}
 }
 
-- 
2.43.0


From 3e0c893f37246e9819481c7cde5ead7fa241bd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:27 +0000
Subject: [PATCH 15/20] fix: pipeline: cancellation wakes all goroutines that
 wait for their turn

Nodes broadcast without holding the lock of the condition variable, so that a
goroutine that had just found the pipeline not to be cancelled missed it and
waited forever.
---
 pipeline/lparnode.go      | 2 ++
 pipeline/strictordnode.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 5156b2f..a24ea53 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -61,7 +61,9 @@ func (node *lparnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 					select {
 					case <-p.ctx.Done():
 						if node.ordered {
+							node.cond.L.Lock() // a goroutine may be about to wait
 							node.cond.Broadcast()
+							node.cond.L.Unlock()
 						}
 						return
 					case batch, ok := <-node.channel:
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 24402b3..ea505ae 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -50,7 +50,9 @@ func (node *strictordnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool)
 			for {
 				select {
 				case <-p.ctx.Done():
+					node.cond.L.Lock() // a goroutine may be about to wait
 					node.cond.Broadcast()
+					node.cond.L.Unlock()
 					return
 				case batch, ok := <-node.channel:
 					if !ok {
-- 
2.43.0


From 8861903887fc9eb96ed8dc928de69eb8a58e1497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:27 +0000
Subject: [PATCH 16/20] fix: pipeline: Count ignores what its result was before

In ordered and sequential nodes of unknown size, Count added to the previous
value of the result instead of setting it.
---
 pipeline/filters.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 26bbcda..6605a11 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -272,6 +272,7 @@ func Count(result *int) Filter {
 				*result = int(atomic.LoadInt64(&res))
 			}
 		default:
+			*result = 0
 			receiver = func(_ int, data interface{}) interface{} {
 				if data != nil {
 					d := reflect.ValueOf(data)
-- 
2.43.0


From 1d39bf88fea663f30014d23b43fd7d3b7db4a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 17/20] fix: pipeline: Skip announces the right size, Limit and
 Skip accept nil batches

Skip announced the number of skipped elements as the size of what it passes on,
which Count reports. Limit and Skip crashed on the nil batches that Limit and
Skip themselves pass on.
---
 pipeline/filters.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 6605a11..fa7d5d3 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -306,7 +306,7 @@ func Limit(limit int, cancelWhenReached bool) Node {
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-				if seen >= limit {
+				if seen >= limit || data == nil {
 					return
 				}
 				d := reflect.ValueOf(data)
@@ -342,11 +342,11 @@ func Skip(n int) Node {
 		case n == 0: // nothing to skip
 		case (*size < 0) || (*size > n):
 			if *size > 0 {
-				*size = n
+				*size -= n
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-				if seen >= n {
+				if seen >= n || data == nil {
 					result = data
 					return
 				}
-- 
2.43.0


From 3037368841277671d3eeb817493e9bc855917e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:13 +0000
Subject: [PATCH 18/20] fix: parallel, sequential, speculative: range batches
 near the largest int

The test whether the middle of a range lies beyond its end computed that
middle first, which overflows when the end is close to the largest int.
---
 parallel/parallel.go       | 24 ++++++++++++------------
 sequential/sequential.go   | 24 ++++++++++++------------
 speculative/speculative.go | 14 +++++++-------
 3 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index cae05dc..509dd3b 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -625,7 +625,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				f(low, high)
 				return
 			}
@@ -685,7 +685,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -745,7 +745,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -807,7 +807,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right interface{}
@@ -870,7 +870,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -931,7 +931,7 @@ func RangeReduceIntSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -992,7 +992,7 @@ func RangeReduceIntProduct(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -1055,7 +1055,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1116,7 +1116,7 @@ func RangeReduceFloat64Sum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1177,7 +1177,7 @@ func RangeReduceFloat64Product(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1240,7 +1240,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right string
@@ -1301,7 +1301,7 @@ func RangeReduceStringSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right string
diff --git a/sequential/sequential.go b/sequential/sequential.go
index 2f97399..7fabff7 100755
--- a/sequential/sequential.go
+++ b/sequential/sequential.go
@@ -180,7 +180,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				f(low, high)
 				return
 			}
@@ -219,7 +219,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return f(low, high)
 			}
 			b0 := recur(low, mid, half)
@@ -258,7 +258,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return f(low, high)
 			}
 			b0 := recur(low, mid, half)
@@ -297,7 +297,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -337,7 +337,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -375,7 +375,7 @@ func RangeReduceIntSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -413,7 +413,7 @@ func RangeReduceIntProduct(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -453,7 +453,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -491,7 +491,7 @@ func RangeReduceFloat64Sum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -529,7 +529,7 @@ func RangeReduceFloat64Product(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -569,7 +569,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -607,7 +607,7 @@ func RangeReduceStringSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
diff --git a/speculative/speculative.go b/speculative/speculative.go
index 4da1598..4d02ba7 100755
--- a/speculative/speculative.go
+++ b/speculative/speculative.go
@@ -434,7 +434,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -496,7 +496,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -558,7 +558,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -626,7 +626,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right interface{}
@@ -699,7 +699,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -772,7 +772,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -845,7 +845,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right string
-- 
2.43.0


From fb5ca2f5947ca7b16abc405b8991b34cd6c56d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 19/20] fix: StableSort waits for NewTemp and passes on its
 panic

A panic of NewTemp or Assign ended the process, since nothing recovered
it in the goroutine that makes the temporary collection. When sorting
panicked before, that goroutine was left running.
---
 sort/mergesort.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sort/mergesort.go b/sort/mergesort.go
index df84aad..65ad341 100755
--- a/sort/mergesort.go
+++ b/sort/mergesort.go
@@ -3,6 +3,7 @@ package sort
 import (
 	"sync"
 
+	"github.com/exascience/pargo/internal"
 	"github.com/exascience/pargo/parallel"
 )
 
@@ -154,10 +155,15 @@ func StableSort(data StableSorter) {
 		return
 	}
 	var T, A *sorter
+	var p interface{}
 	var temp sync.WaitGroup
 	temp.Add(1)
+	defer temp.Wait() // also when sorting panics
 	go func() {
-		defer temp.Done()
+		defer func() {
+			p = internal.WrapPanic(recover())
+			temp.Done()
+		}()
 		a := data.NewTemp()
 		T = &sorter{data.Less, data.Assign(a)}
 		A = &sorter{a.Less, a.Assign(data)}
@@ -177,6 +183,9 @@ func StableSort(data StableSorter) {
 				func() { pSort(index+q3, size-q3) },
 			)
 			temp.Wait()
+			if p != nil {
+				panic(p)
+			}
 			parallel.Do(
 				func() { pMerge(T, index, index+q1-1, index+q1, index+q2-1, A, index) },
 				func() { pMerge(T, index+q2, index+q3-1, index+q3, index+size-1, A, index+q2) },
-- 
2.43.0


From d3cc45320a5de841a1b7b7a71bf93be655063015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:14 +0000
Subject: [PATCH 20/20] fix: pipeline: end the goroutines of nodes that are
 merged after they have begun

When nodes without receivers are dropped, LimitedPar or StrictOrd nodes that
become neighbours are merged after their Begin methods have started goroutines.
Nobody closed the channel of the merged node, so its goroutines were left over
until the context was cancelled.
---
 pipeline/lparnode.go      | 3 +++
 pipeline/strictordnode.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index a24ea53..cc15008 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -42,6 +42,9 @@ func (node *lparnode) TryMerge(next Node) bool {
 		node.filters = append(node.filters, nxt.filters...)
 		node.receivers = append(node.receivers, nxt.receivers...)
 		node.finalizers = append(node.finalizers, nxt.finalizers...)
+		if nxt.channel != nil { // Begin has started goroutines that nobody else ends
+			close(nxt.channel)
+		}
 		return true
 	}
 	return false
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index ea505ae..ecd4abd 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -26,11 +26,17 @@ func (node *strictordnode) TryMerge(next Node) bool {
 		node.filters = append(node.filters, nxt.filters...)
 		node.receivers = append(node.receivers, nxt.receivers...)
 		node.finalizers = append(node.finalizers, nxt.finalizers...)
+		if nxt.channel != nil { // Begin has started goroutines that nobody else ends
+			close(nxt.channel)
+		}
 		return true
 	case *strictordnode:
 		node.filters = append(node.filters, nxt.filters...)
 		node.receivers = append(node.receivers, nxt.receivers...)
 		node.finalizers = append(node.finalizers, nxt.finalizers...)
+		if nxt.channel != nil { // Begin has started goroutines that nobody else ends
+			close(nxt.channel)
+		}
 		return true
 	default:
 		return false
-- 
2.43.0

