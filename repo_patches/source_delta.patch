From 65ff630f7c6e2c9e6c02d5e89f5c757205350280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 01/20] fix: report negative ids as absent in Dictionary.Word
 and IDFreq

---
 pkg/corpus/dictionary/dictionary.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/corpus/dictionary/dictionary.go b/pkg/corpus/dictionary/dictionary.go
index f91ad5a..a741ed8 100644
--- a/pkg/corpus/dictionary/dictionary.go
+++ b/pkg/corpus/dictionary/dictionary.go
@@ -54,14 +54,14 @@ func (d *Dictionary) WordFreq(word string) int {
 }
 
 func (d *Dictionary) Word(id int) (string, bool) {
-	if id >= d.maxid {
+	if id < 0 || id >= d.maxid {
 		return "", false
 	}
 	return d.id2word[id], true
 }
 
 func (d *Dictionary) IDFreq(id int) int {
-	if id >= d.maxid {
+	if id < 0 || id >= d.maxid {
 		return 0
 	}
 	return d.cfs[id]
-- 
2.43.0


From 38a74ae5a05cef13da69133bdcef5fe567a0b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 02/20] fix: Search returns all similar items, tolerates any k
 and rejects queries of another dimension

---
 pkg/search/search.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/search/search.go b/pkg/search/search.go
index ed5c89a..3551ffc 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -92,6 +92,19 @@ func (s *Searcher) SearchVector(query []float64, k int) (Neighbors, error) {
 }
 
 func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string) (Neighbors, error) {
+	for _, item := range s.Items {
+		if len(query.Vector) != len(item.Vector) {
+			return nil, errors.Errorf("dimension of query must be the same as items: %d but got %d", len(item.Vector), len(query.Vector))
+		}
+	}
+
+	// The result can not be longer than the items.
+	if k > len(s.Items) {
+		k = len(s.Items)
+	}
+	if k <= 0 {
+		return Neighbors{}, nil
+	}
 	neighbors := make(Neighbors, k)
 
 	// Map to quickly check if a word is to be ignored.
@@ -127,8 +140,9 @@ func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string
 
 	// Guard too few items in model.
 	for i := 0; i < len(neighbors); i++ {
-		if neighbors[i].Word == "" {
+		if neighbors[i].Rank == 0 {
 			k = i
+			break
 		}
 	}
 
-- 
2.43.0


From 31445b25d1d5542eb3afa50f444a97ff8263af9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 03/20] fix: forward context of short texts and of the last
 words of a text

---
 pkg/corpus/cpsutil/cpsutil.go | 37 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index 020b098..aed15a6 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -46,11 +46,11 @@ func ReadWord(r io.ReadSeeker, fn func(string) error) error {
 func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string) error) error {
 	r.Seek(0, 0)
 	scanner := scanner(r)
-	var (
-		axis string
-		ws   []string = make([]string, n)
-	)
+	// ws is the axis, followed by its forward context of at most n words.
+	var ws []string
 	postFn := func() error {
+		axis := ws[0]
+		ws = ws[1:]
 		for _, w := range ws {
 			if err := fn(axis, w); err != nil {
 				return err
@@ -58,33 +58,20 @@ func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string)
 		}
 		return nil
 	}
-	for {
-		if axis == "" {
-			if !scanner.Scan() {
-				break
-			}
-			axis = scanner.Text()
-			for i := 0; i < n; i++ {
-				if !scanner.Scan() {
-					break
-				}
-				ws[i] = scanner.Text()
-			}
-		} else {
-			axis = ws[0]
-			ws = ws[1:]
-			if !scanner.Scan() {
-				break
+	for scanner.Scan() {
+		ws = append(ws, scanner.Text())
+		if len(ws) > n {
+			if err := postFn(); err != nil {
+				return err
 			}
-			ws = append(ws, scanner.Text())
 		}
+	}
+	// the axes at the end of the text have less than n words as the context
+	for len(ws) > 0 {
 		if err := postFn(); err != nil {
 			return err
 		}
 	}
-	if err := postFn(); err != nil {
-		return err
-	}
 
 	if err := scanner.Err(); err != nil && err != io.EOF {
 		return err
-- 
2.43.0


From 494fdea11554d2406af2509b046b8ad8a80b6293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 04/20] fix: report the failure to rewind the corpus

---
 pkg/corpus/cpsutil/cpsutil.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index aed15a6..9f663cb 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -28,7 +28,9 @@ func scanner(r io.Reader) *bufio.Scanner {
 }
 
 func ReadWord(r io.ReadSeeker, fn func(string) error) error {
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
 	scanner := scanner(r)
 	for scanner.Scan() {
 		if err := fn(scanner.Text()); err != nil {
@@ -44,7 +46,9 @@ func ReadWord(r io.ReadSeeker, fn func(string) error) error {
 }
 
 func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string) error) error {
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
 	scanner := scanner(r)
 	// ws is the axis, followed by its forward context of at most n words.
 	var ws []string
-- 
2.43.0


From b484e9cdd378cbef72f3b1e2a0e81b39989e4c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 05/20] fix: lower-case words on counting co-occurrences of the
 file-backed corpus

---
 pkg/corpus/fs/fs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index c28860b..c17f809 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -131,6 +131,9 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 		}
 
 		if err = cpsutil.ReadWordWithForwardContext(c.doc, with.Window, func(w1, w2 string) error {
+			if c.toLower {
+				w1, w2 = strings.ToLower(w1), strings.ToLower(w2)
+			}
 			id1, _ := c.dic.ID(w1)
 			id2, _ := c.dic.ID(w2)
 			if err := c.cooc.Add(id1, id2); err != nil {
-- 
2.43.0


From c22901cc0377ea3b89ccd191f0527b9eb31d1be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 06/20] fix: glove and lexvec export word plus context vectors
 for agg, word vectors for single

---
 pkg/model/glove/glove.go   | 4 ++--
 pkg/model/lexvec/lexvec.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index f3b0d18..9d5d222 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -185,7 +185,7 @@ func (g *glove) WordVector(typ vector.Type) *matrix.Matrix {
 		mat = matrix.New(dic.Len(), g.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < g.opts.Dim; i++ {
-					vec[i] = g.param.Slice(row)[i]
+					vec[i] = g.param.Slice(row)[i] + g.param.Slice(row + dic.Len())[i]
 				}
 			},
 		)
@@ -193,7 +193,7 @@ func (g *glove) WordVector(typ vector.Type) *matrix.Matrix {
 		mat = matrix.New(dic.Len(), g.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < g.opts.Dim; i++ {
-					vec[i] = g.param.Slice(row)[i] + g.param.Slice(row + dic.Len())[i]
+					vec[i] = g.param.Slice(row)[i]
 				}
 			},
 		)
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 09004e7..b57609a 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -264,7 +264,7 @@ func (l *lexvec) WordVector(typ vector.Type) *matrix.Matrix {
 		mat = matrix.New(dic.Len(), l.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < l.opts.Dim; i++ {
-					vec[i] = l.param.Slice(row)[i]
+					vec[i] = l.param.Slice(row)[i] + l.param.Slice(row + dic.Len())[i]
 				}
 			},
 		)
@@ -273,7 +273,7 @@ func (l *lexvec) WordVector(typ vector.Type) *matrix.Matrix {
 		mat = matrix.New(dic.Len(), l.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < l.opts.Dim; i++ {
-					vec[i] = l.param.Slice(row)[i] + l.param.Slice(row + dic.Len())[i]
+					vec[i] = l.param.Slice(row)[i]
 				}
 			},
 		)
-- 
2.43.0


From d7bc96ce7e44f2ff2d15e34939681058eca27cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 07/20] fix: GetPath returns the full path for depth 0 and is
 safe for concurrent use

---
 pkg/corpus/dictionary/node/node.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/corpus/dictionary/node/node.go b/pkg/corpus/dictionary/node/node.go
index 506f48b..847b3fe 100644
--- a/pkg/corpus/dictionary/node/node.go
+++ b/pkg/corpus/dictionary/node/node.go
@@ -14,7 +14,10 @@
 
 package node
 
+import "sync"
+
 type Node struct {
+	once   sync.Once
 	cache  []*Node
 	Parent *Node
 	Val    int
@@ -24,7 +27,7 @@ type Node struct {
 }
 
 func (n *Node) GetPath(depth int) []*Node {
-	if n.cache == nil {
+	n.once.Do(func() {
 		re := func(nodes []*Node) {
 			for i, j := 0, len(nodes)-1; i < j; i, j = i+1, j-1 {
 				nodes[i], nodes[j] = nodes[j], nodes[i]
@@ -35,8 +38,8 @@ func (n *Node) GetPath(depth int) []*Node {
 			n.cache = append(n.cache, p)
 		}
 		re(n.cache)
-	}
-	if depth > len(n.cache) {
+	})
+	if depth <= 0 || depth > len(n.cache) {
 		depth = len(n.cache)
 	}
 	return n.cache[:depth]
-- 
2.43.0


From aaec1a7ee2542adae68e3ed8ee7ab1dc79c2fb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 08/20] fix: sigmoid table index for inputs right below the
 upper limit

---
 pkg/model/word2vec/sigmoid_table.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/model/word2vec/sigmoid_table.go b/pkg/model/word2vec/sigmoid_table.go
index 2727236..f562e2b 100644
--- a/pkg/model/word2vec/sigmoid_table.go
+++ b/pkg/model/word2vec/sigmoid_table.go
@@ -41,5 +41,10 @@ func newSigmoidTable() *sigmoidTable {
 // sigmoid returns: f(x) = (x + max_exp) * (exp_table_size / max_exp / 2)
 // If you set x to over |max_exp|, it raises index out of range error.
 func (s *sigmoidTable) sigmoid(x float64) float64 {
-	return s.expTable[int((x+s.maxExp)*s.cache)]
+	i := int((x + s.maxExp) * s.cache)
+	if i >= s.expTableSize {
+		// x+maxExp is rounded up to 2*maxExp for x right below maxExp
+		i = s.expTableSize - 1
+	}
+	return s.expTable[i]
 }
-- 
2.43.0


From 5bdf576b6f0071eeabd61efee7e160d7672d173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 09/20] fix: learning rate does not fall below its lower limit

---
 pkg/model/lexvec/lexvec.go     | 3 +--
 pkg/model/word2vec/word2vec.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index b57609a..4c5d52c 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -236,10 +236,9 @@ func (l *lexvec) observe(trained chan struct{}, clk *clock.Clock) {
 	for range trained {
 		cnt++
 		if cnt%l.opts.UpdateLRBatch == 0 {
+			l.currentlr = l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len()))
 			if l.currentlr < l.opts.MinLR {
 				l.currentlr = l.opts.MinLR
-			} else {
-				l.currentlr = l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len()))
 			}
 		}
 		l.verbose.Do(func() {
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index fa84d9c..80587e1 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -209,10 +209,9 @@ func (w *word2vec) observe(trained chan struct{}, clk *clock.Clock) {
 	for range trained {
 		cnt++
 		if cnt%w.opts.UpdateLRBatch == 0 {
+			w.currentlr = w.opts.Initlr * (1.0 - float64(cnt)/float64(w.corpus.Len()))
 			if w.currentlr < w.opts.MinLR {
 				w.currentlr = w.opts.MinLR
-			} else {
-				w.currentlr = w.opts.Initlr * (1.0 - float64(cnt)/float64(w.corpus.Len()))
 			}
 		}
 		w.verbose.Do(func() {
-- 
2.43.0


From 298d2a0e588032720295e8fa5d82d76699140c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 10/20] fix: report write errors on saving word vectors

---
 pkg/model/modelutil/vector/vector.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/model/modelutil/vector/vector.go b/pkg/model/modelutil/vector/vector.go
index ebc580d..327c34e 100644
--- a/pkg/model/modelutil/vector/vector.go
+++ b/pkg/model/modelutil/vector/vector.go
@@ -43,7 +43,6 @@ func Save(f io.Writer, dic *dictionary.Dictionary, mat *matrix.Matrix, verbose *
 		return fmt.Errorf("different for length of dic and row of matrix: %d, %d", dic.Len(), mat.Row())
 	}
 	writer := bufio.NewWriter(f)
-	defer writer.Flush()
 
 	var buf bytes.Buffer
 	clk := clock.New()
@@ -60,7 +59,12 @@ func Save(f io.Writer, dic *dictionary.Dictionary, mat *matrix.Matrix, verbose *
 			}
 		})
 	}
-	writer.WriteString(fmt.Sprintf("%v", buf.String()))
+	if _, err := writer.WriteString(fmt.Sprintf("%v", buf.String())); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 	verbose.Do(func() {
 		fmt.Printf("saved %d words %v\r\n", dic.Len(), clk.AllElapsed())
 	})
-- 
2.43.0


From 6b3f2bdbd17dccaa9a6f84cbabdce6d078514614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 11/20] fix: a read failure while batching words ends training
 with that error

---
 pkg/corpus/fs/fs.go            | 3 ++-
 pkg/model/lexvec/lexvec.go     | 8 +++++++-
 pkg/model/word2vec/word2vec.go | 8 +++++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index c17f809..0f18338 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -56,6 +56,8 @@ func (c *Corpus) IndexedDoc() []int {
 }
 
 func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
+	defer close(ch)
+
 	cursor, ids := 0, make([]int, batchSize)
 	if err := cpsutil.ReadWord(c.doc, func(word string) error {
 		if c.toLower {
@@ -80,7 +82,6 @@ func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
 
 	// send left words
 	ch <- ids[:cursor]
-	close(ch)
 	return nil
 }
 
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 4c5d52c..051e6e0 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -158,7 +158,10 @@ func (l *lexvec) batchTrain() error {
 		wg := &sync.WaitGroup{}
 
 		in := make(chan []int, l.opts.Goroutines)
-		go l.corpus.BatchWords(in, l.opts.BatchSize)
+		batched := make(chan error, 1)
+		go func() {
+			batched <- l.corpus.BatchWords(in, l.opts.BatchSize)
+		}()
 		for doc := range in {
 			wg.Add(1)
 			go l.trainPerThread(doc, items, trained, sem, wg)
@@ -166,6 +169,9 @@ func (l *lexvec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		if err := <-batched; err != nil {
+			return err
+		}
 	}
 	return nil
 }
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 80587e1..2a81997 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -167,7 +167,10 @@ func (w *word2vec) batchTrain() error {
 		wg := &sync.WaitGroup{}
 
 		in := make(chan []int, w.opts.Goroutines)
-		go w.corpus.BatchWords(in, w.opts.BatchSize)
+		batched := make(chan error, 1)
+		go func() {
+			batched <- w.corpus.BatchWords(in, w.opts.BatchSize)
+		}()
 		for doc := range in {
 			wg.Add(1)
 			go w.trainPerThread(doc, trained, sem, wg)
@@ -175,6 +178,9 @@ func (w *word2vec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		if err := <-batched; err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 6e4b425c3e457503eaf0d828191d99272543df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 12/20] fix: console reports an invalid right operand

---
 pkg/search/console/console.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/search/console/console.go b/pkg/search/console/console.go
index 54fe785..bae4c2a 100644
--- a/pkg/search/console/console.go
+++ b/pkg/search/console/console.go
@@ -136,7 +136,7 @@ func (c *Console) evalBinaryExpr(expr *ast.BinaryExpr) error {
 	}
 	yi, err := c.evalAsEmbedding(expr.Y)
 	if err != nil {
-		return nil
+		return err
 	}
 	c.cursor.w1 = xi.Word
 	c.cursor.w2 = yi.Word
-- 
2.43.0


From dc3a13641f0689cef6a29eef9a9b6cc34a663c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 13/20] fix: console ends when its input ends

---
 pkg/search/console/console.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/search/console/console.go b/pkg/search/console/console.go
index bae4c2a..45b749e 100644
--- a/pkg/search/console/console.go
+++ b/pkg/search/console/console.go
@@ -19,6 +19,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"io"
 
 	"github.com/peterh/liner"
 	"github.com/pkg/errors"
@@ -65,8 +66,10 @@ func (c *Console) Run() error {
 	defer c.Close()
 	for {
 		l, err := c.Prompt(">> ")
-		if err != nil {
-			fmt.Println("error: ", err)
+		if err == io.EOF {
+			return nil
+		} else if err != nil {
+			return err
 		}
 		switch l {
 		case "exit":
-- 
2.43.0


From e166b8d440b70d710c35b115bf1c67ee5a1ab33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 14/20] fix: cbow updates the same context words that it has
 summed up

---
 pkg/model/word2vec/model.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/model/word2vec/model.go b/pkg/model/word2vec/model.go
index 818d9ef..c5a299d 100644
--- a/pkg/model/word2vec/model.go
+++ b/pkg/model/word2vec/model.go
@@ -117,19 +117,19 @@ func (mod *cbow) trainOne(
 	for i := 0; i < len(agg); i++ {
 		agg[i], tmp[i] = 0, 0
 	}
-	mod.dowith(doc, pos, param, agg, tmp, mod.aggregate)
+	del := modelutil.NextRandom(mod.window)
+	mod.dowith(doc, pos, del, param, agg, tmp, mod.aggregate)
 	optimizer.optim(doc[pos], lr, agg, tmp)
-	mod.dowith(doc, pos, param, agg, tmp, mod.update)
+	mod.dowith(doc, pos, del, param, agg, tmp, mod.update)
 }
 
 func (mod *cbow) dowith(
 	doc []int,
-	pos int,
+	pos, del int,
 	param *matrix.Matrix,
 	agg, tmp []float64,
 	fn func(ctx, agg, tmp []float64),
 ) {
-	del := modelutil.NextRandom(mod.window)
 	for a := del; a < mod.window*2+1-del; a++ {
 		if a == mod.window {
 			continue
-- 
2.43.0


From bf7f3bddd81891495538d8e1953b96fe12822419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 15/20] fix: load word vectors whose lines exceed 64 KB

---
 pkg/embedding/embedding.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/embedding/embedding.go b/pkg/embedding/embedding.go
index 0752cc0..f05d4ca 100644
--- a/pkg/embedding/embedding.go
+++ b/pkg/embedding/embedding.go
@@ -17,6 +17,7 @@ package embedding
 import (
 	"bufio"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 
@@ -86,6 +87,7 @@ func Load(r io.Reader) (Embeddings, error) {
 
 func parse(r io.Reader, op func(Embedding) error) error {
 	s := bufio.NewScanner(r)
+	s.Buffer(nil, math.MaxInt32) // no limit of 64 KB on the length of lines
 	for s.Scan() {
 		line := s.Text()
 		if strings.HasPrefix(line, " ") {
-- 
2.43.0


From fa85bd358f1207b884d59cc605b55eabd5365cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 16/20] fix: proximity counting weighs pairs by their distance
 in the text

---
 pkg/corpus/cooccurrence/cooccurrence.go | 11 ++++++++---
 pkg/corpus/cpsutil/cpsutil.go           | 11 +++++++++--
 pkg/corpus/fs/fs.go                     |  4 ++--
 pkg/corpus/memory/memory.go             |  2 +-
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/pkg/corpus/cooccurrence/cooccurrence.go b/pkg/corpus/cooccurrence/cooccurrence.go
index 6cd2449..1327a7b 100644
--- a/pkg/corpus/cooccurrence/cooccurrence.go
+++ b/pkg/corpus/cooccurrence/cooccurrence.go
@@ -55,18 +55,23 @@ func (c *Cooccurrence) EncodedMatrix() map[uint64]float64 {
 	return c.ma
 }
 
+// Add counts a pair of adjacent words.
 func (c *Cooccurrence) Add(left, right int) error {
+	return c.AddWithDistance(left, right, 1)
+}
+
+// AddWithDistance counts a pair of words which are dist words apart in the text.
+func (c *Cooccurrence) AddWithDistance(left, right, dist int) error {
 	enc := encode.EncodeBigram(uint64(left), uint64(right))
 	var val float64
 	switch c.typ {
 	case Increment:
 		val = 1
 	case Proximity:
-		div := left - right
-		if div == 0 {
+		if dist == 0 {
 			return errors.Errorf("Divide by zero on counting co-occurrence")
 		}
-		val = 1. / math.Abs(float64(div))
+		val = 1. / math.Abs(float64(dist))
 	default:
 		return invalidCountTypeError(c.typ)
 	}
diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index 9f663cb..2d9b2b7 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -46,6 +46,13 @@ func ReadWord(r io.ReadSeeker, fn func(string) error) error {
 }
 
 func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string) error) error {
+	return ReadWordWithDistance(r, n, func(w1, w2 string, _ int) error {
+		return fn(w1, w2)
+	})
+}
+
+// ReadWordWithDistance is ReadWordWithForwardContext that also tells how many words both words are apart.
+func ReadWordWithDistance(r io.ReadSeeker, n int, fn func(string, string, int) error) error {
 	if _, err := r.Seek(0, io.SeekStart); err != nil {
 		return err
 	}
@@ -55,8 +62,8 @@ func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string)
 	postFn := func() error {
 		axis := ws[0]
 		ws = ws[1:]
-		for _, w := range ws {
-			if err := fn(axis, w); err != nil {
+		for i, w := range ws {
+			if err := fn(axis, w, i+1); err != nil {
 				return err
 			}
 		}
diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index 0f18338..110732e 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -131,13 +131,13 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 			return err
 		}
 
-		if err = cpsutil.ReadWordWithForwardContext(c.doc, with.Window, func(w1, w2 string) error {
+		if err = cpsutil.ReadWordWithDistance(c.doc, with.Window, func(w1, w2 string, dist int) error {
 			if c.toLower {
 				w1, w2 = strings.ToLower(w1), strings.ToLower(w2)
 			}
 			id1, _ := c.dic.ID(w1)
 			id2, _ := c.dic.ID(w2)
-			if err := c.cooc.Add(id1, id2); err != nil {
+			if err := c.cooc.AddWithDistance(id1, id2, dist); err != nil {
 				return err
 			}
 			cursor++
diff --git a/pkg/corpus/memory/memory.go b/pkg/corpus/memory/memory.go
index 41c5f2e..5ff5845 100644
--- a/pkg/corpus/memory/memory.go
+++ b/pkg/corpus/memory/memory.go
@@ -118,7 +118,7 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 
 		for i := 0; i < len(c.idoc); i++ {
 			for j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {
-				if err = c.cooc.Add(c.idoc[i], c.idoc[j]); err != nil {
+				if err = c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i); err != nil {
 					return err
 				}
 				cursor++
-- 
2.43.0


From e807f010d6e35d8e912a6323b3cac8ac387ecaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 17/20] fix: glove applies the count filters

---
 pkg/model/glove/item.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/model/glove/item.go b/pkg/model/glove/item.go
index 9f1950f..ba1c798 100644
--- a/pkg/model/glove/item.go
+++ b/pkg/model/glove/item.go
@@ -20,6 +20,7 @@ import (
 
 	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
 	"github.com/ynqa/wego/pkg/corpus/cooccurrence/encode"
+	"github.com/ynqa/wego/pkg/corpus/cpsutil"
 	"github.com/ynqa/wego/pkg/util/clock"
 )
 
@@ -31,10 +32,18 @@ type item struct {
 
 func (g *glove) makeItems(cooc *co.Cooccurrence) []item {
 	em := cooc.EncodedMatrix()
+	dic := g.corpus.Dictionary()
+	filters := cpsutil.Filters{
+		cpsutil.MaxCount(g.opts.MaxCount),
+		cpsutil.MinCount(g.opts.MinCount),
+	}
 	res, idx, clk := make([]item, len(em)), 0, clock.New()
 	for enc, f := range em {
 		u1, u2 := encode.DecodeBigram(enc)
 		l1, l2 := int(u1), int(u2)
+		if filters.Any(l1, dic) || filters.Any(l2, dic) {
+			continue
+		}
 		coef := 1.
 		if f < float64(g.opts.Xmax) {
 			coef = math.Pow(f/float64(g.opts.Xmax), g.opts.Alpha)
@@ -55,5 +64,5 @@ func (g *glove) makeItems(cooc *co.Cooccurrence) []item {
 	g.verbose.Do(func() {
 		fmt.Printf("build %d items %v\r\n", idx, clk.AllElapsed())
 	})
-	return res
+	return res[:idx]
 }
-- 
2.43.0


From 1334c8fd53847a1f9d0a0a8368b58d237141dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 18/20] fix: wait for the learning-rate observer before the
 next iteration

A delayed observer of an iteration could set the learning rate of that
iteration's end during the next iteration.
---
 pkg/model/lexvec/lexvec.go     | 16 ++++++++++++----
 pkg/model/word2vec/word2vec.go | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 051e6e0..0bce573 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -126,8 +126,11 @@ func (l *lexvec) train() error {
 	)
 
 	for i := 1; i <= l.opts.Iter; i++ {
-		trained, clk := make(chan struct{}), clock.New()
-		go l.observe(trained, clk)
+		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
+		go func() {
+			defer close(observed)
+			l.observe(trained, clk)
+		}()
 
 		sem := semaphore.NewWeighted(int64(l.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -140,6 +143,7 @@ func (l *lexvec) train() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 	}
 	return nil
 }
@@ -151,8 +155,11 @@ func (l *lexvec) batchTrain() error {
 	}
 
 	for i := 1; i <= l.opts.Iter; i++ {
-		trained, clk := make(chan struct{}), clock.New()
-		go l.observe(trained, clk)
+		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
+		go func() {
+			defer close(observed)
+			l.observe(trained, clk)
+		}()
 
 		sem := semaphore.NewWeighted(int64(l.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -169,6 +176,7 @@ func (l *lexvec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 		if err := <-batched; err != nil {
 			return err
 		}
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 2a81997..cb997ee 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -140,8 +140,11 @@ func (w *word2vec) train() error {
 	)
 
 	for i := 1; i <= w.opts.Iter; i++ {
-		trained, clk := make(chan struct{}), clock.New()
-		go w.observe(trained, clk)
+		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
+		go func() {
+			defer close(observed)
+			w.observe(trained, clk)
+		}()
 
 		sem := semaphore.NewWeighted(int64(w.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -154,14 +157,18 @@ func (w *word2vec) train() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 	}
 	return nil
 }
 
 func (w *word2vec) batchTrain() error {
 	for i := 1; i <= w.opts.Iter; i++ {
-		trained, clk := make(chan struct{}), clock.New()
-		go w.observe(trained, clk)
+		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
+		go func() {
+			defer close(observed)
+			w.observe(trained, clk)
+		}()
 
 		sem := semaphore.NewWeighted(int64(w.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -178,6 +185,7 @@ func (w *word2vec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 		if err := <-batched; err != nil {
 			return err
 		}
-- 
2.43.0


From d18c0145e6a2622df072c317a66ddd719ae47f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:16 +0000
Subject: [PATCH 19/20] fix: word2vec, lexvec: start each training at the
 initial learning rate

A model that was trained before started at the rate which the first training
had decayed to, until the next update.
---
 pkg/model/lexvec/lexvec.go     | 3 +++
 pkg/model/word2vec/word2vec.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 0bce573..9390514 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -101,6 +101,9 @@ func (l *lexvec) Train(r io.ReadSeeker) error {
 
 	l.subsampler = subsample.New(dic, l.opts.SubsampleThreshold)
 
+	// training again starts afresh
+	l.currentlr = l.opts.Initlr
+
 	if l.opts.DocInMemory {
 		if err := l.train(); err != nil {
 			return err
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index cb997ee..b764b37 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -96,6 +96,9 @@ func (w *word2vec) Train(r io.ReadSeeker) error {
 
 	w.subsampler = subsample.New(dic, w.opts.SubsampleThreshold)
 
+	// training again starts afresh
+	w.currentlr = w.opts.Initlr
+
 	switch w.opts.ModelType {
 	case SkipGram:
 		w.mod = newSkipGram(w.opts)
-- 
2.43.0


From d7bdcf42650660005ddc1c9b7948c06586d45fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:28 +0000
Subject: [PATCH 20/20] fix: models: reject unknown vector types on saving

They were saved as single without a word, InvalidTypeError was not used.
---
 pkg/model/glove/glove.go       | 3 +++
 pkg/model/lexvec/lexvec.go     | 3 +++
 pkg/model/word2vec/word2vec.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index 9d5d222..d121bab 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -175,6 +175,9 @@ func (g *glove) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (g *glove) Save(f io.Writer, typ vector.Type) error {
+	if typ != vector.Single && typ != vector.Agg {
+		return vector.InvalidTypeError(typ)
+	}
 	return vector.Save(f, g.corpus.Dictionary(), g.WordVector(typ), g.verbose, g.opts.LogBatch)
 }
 
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 9390514..2033605 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -270,6 +270,9 @@ func (l *lexvec) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (l *lexvec) Save(f io.Writer, typ vector.Type) error {
+	if typ != vector.Single && typ != vector.Agg {
+		return vector.InvalidTypeError(typ)
+	}
 	return vector.Save(f, l.corpus.Dictionary(), l.WordVector(typ), l.verbose, l.opts.LogBatch)
 }
 
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index b764b37..3814224 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -243,6 +243,9 @@ func (w *word2vec) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (w *word2vec) Save(f io.Writer, typ vector.Type) error {
+	if typ != vector.Single && typ != vector.Agg {
+		return vector.InvalidTypeError(typ)
+	}
 	return vector.Save(f, w.corpus.Dictionary(), w.WordVector(typ), w.verbose, w.opts.LogBatch)
 }
 
-- 
2.43.0

