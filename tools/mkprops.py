#!/usr/bin/env python3
# Generates /verif/properties.jsonl (one property per line).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": hook}})

p("C01", "The dictionary is a faithful, dense, two-way index with exact counts",
  "After any sequence of words has been added, the dictionary holds exactly one entry per distinct word, ids are 0..n-1 in order of first occurrence, word-to-id and id-to-word are inverse to each other, and the frequency reported for a word (by word or by id) is the number of times it was added. Unknown words and ids outside 0..n-1 (negative ones included) are reported as absent, with frequency 0.",
  ["inputs", "histories"], "every sequence of added words, every looked-up word and every looked-up id",
  "No test touches the dictionary directly; the claim ranges over all histories of additions and all lookups.",
  ["pkg/corpus/dictionary/dictionary.go"],
  [("Add/ID/Word/WordFreq/IDFreq/Len", "pkg/corpus/dictionary/dictionary.go")], ["dictionary lookups"])
p("C02", "Loading a corpus counts exactly the words of the text, in both modes",
  "Loading a text produces a dictionary whose entries are exactly the white-space separated words of the text (lower-cased when lower-casing is requested), in order of first occurrence with their exact numbers of occurrences, and a corpus length equal to the number of words read. The in-memory and the file-backed corpus agree, however the reader splits the text into chunks and wherever its position was before loading.",
  ["inputs"], "every text, lower-casing on or off, both corpus kinds, every chunking of the reader",
  "The tests only tokenize one literal string; neither corpus kind is loaded by any test.",
  ["pkg/corpus/cpsutil/cpsutil.go", "pkg/corpus/fs/fs.go", "pkg/corpus/memory/memory.go"],
  [("ReadWord", "pkg/corpus/cpsutil/cpsutil.go"), ("Load", "pkg/corpus/fs/fs.go, pkg/corpus/memory/memory.go")],
  ["Corpus.Dictionary", "Corpus.Len"])
p("C03", "Training sees exactly the words that pass the frequency filters, in order",
  "The sequence of word ids handed to training is the document's word sequence with exactly those words removed whose corpus frequency is below the minimum count, or above the maximum count when the maximum is positive; order and repetitions are kept. The in-memory corpus hands it over as one sequence; the file-backed corpus hands it over as batches of at most the batch size that do not share storage, whose concatenation is that sequence, followed by the end of the stream, once. GloVe trains exactly those co-occurring pairs neither of whose words is removed by the filters.",
  ["inputs", "configurations"], "every document, every minimum and maximum count, every batch size >= 1",
  "No test covers filtering or batching; boundaries of count, batch size and document length interact.",
  ["pkg/corpus/cpsutil/cpsutil.go", "pkg/corpus/fs/fs.go", "pkg/corpus/memory/memory.go", "pkg/corpus/filter/options.go"],
  [("Filters.Any, MaxCount, MinCount", "pkg/corpus/cpsutil/cpsutil.go"), ("BatchWords", "pkg/corpus/fs/fs.go"), ("IndexedDoc", "pkg/corpus/memory/memory.go")],
  ["Corpus.BatchWords", "Corpus.IndexedDoc"])
p("C04", "Co-occurrence counts equal the number of word pairs within the window",
  "For every text and window size, the incremental co-occurrence count of an unordered pair of words equals the number of pairs of text positions, at distance 1 to the window size, that hold these two words (lower-cased when requested); pairs that never co-occur have no entry. The in-memory and the file-backed corpus produce the same counts, also for texts shorter than the window and for empty texts; the count filters do not change them.",
  ["inputs", "configurations"], "every text, every window >= 0, lower-casing on or off, any count filters, both corpus kinds",
  "One test reads one 5-word text with window 2, which hides tail, short-text and case effects.",
  ["pkg/corpus/cpsutil/cpsutil.go", "pkg/corpus/fs/fs.go", "pkg/corpus/memory/memory.go", "pkg/corpus/cooccurrence/cooccurrence.go"],
  [("ReadWordWithForwardContext", "pkg/corpus/cpsutil/cpsutil.go"), ("Load", "pkg/corpus/fs/fs.go, pkg/corpus/memory/memory.go"), ("Cooccurrence.Add", "pkg/corpus/cooccurrence/cooccurrence.go")],
  ["Corpus.Cooccurrence"])
p("C05", "Pair codes are symmetric, reversible and collision-free",
  "For all word ids below 2^32, the code of a pair does not depend on the order of the two ids, decoding it gives back the smaller id followed by the larger id, and different unordered pairs have different codes.",
  ["inputs"], "all pairs of ids below 2^32",
  "One test encodes (1,2); the claim is about 2^64 pairs.",
  ["pkg/corpus/cooccurrence/encode/encode.go"], [("EncodeBigram/DecodeBigram", "pkg/corpus/cooccurrence/encode/encode.go")], ["EncodeBigram", "DecodeBigram"])
p("C06", "Proximity counting weighs each co-occurring pair by inverse text distance",
  "With proximity counting, every pair of text positions at distance 1 to the window size contributes the reciprocal of that distance to the co-occurrence value of its two words, in both corpus kinds, and loading succeeds for every text; a pair counted without a distance counts as adjacent. An unknown count type is rejected with an error.",
  ["inputs", "configurations"], "every text, every window, both corpus kinds, every count-type string",
  "No test uses proximity counting at all.",
  ["pkg/corpus/cooccurrence/cooccurrence.go", "pkg/corpus/fs/fs.go", "pkg/corpus/memory/memory.go"],
  [("Cooccurrence.Add", "pkg/corpus/cooccurrence/cooccurrence.go")], ["Corpus.Cooccurrence"])
p("C07", "A failing reader surfaces as an error, never as a hang or silent success",
  "If reading or rewinding the corpus fails at any point of any pass over it, then loading the corpus, and training any of the models on it, returns that failure as a non-nil error. It never blocks forever and never reports success on a partially read corpus. The word readers likewise return the error of the function that they call with each word or pair of words.",
  ["fault_sequences", "configurations"], "every position and pass at which a read or a rewind fails, all three models, both corpus kinds",
  "All tests read from in-memory strings that never fail.",
  ["pkg/corpus/cpsutil/cpsutil.go", "pkg/corpus/fs/fs.go", "pkg/corpus/memory/memory.go", "pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go", "pkg/model/glove/glove.go"],
  [("ReadWord/ReadWordWithForwardContext", "pkg/corpus/cpsutil/cpsutil.go"), ("batchTrain", "pkg/model/word2vec/word2vec.go, pkg/model/lexvec/lexvec.go")],
  ["Corpus.Load", "Model.Train"])
p("H01", "The Huffman tree is a minimum-redundancy prefix code over the vocabulary",
  "For every vocabulary, the tree built for hierarchical softmax has one leaf per word id with that word's frequency, every internal node has exactly two children, with codes 0 and 1, the sum of their frequencies and its own zero vector of the requested dimension, and all leaves share one root. Its total frequency-weighted code length is the minimum over all binary prefix codes.",
  ["inputs"], "every assignment of frequencies to the words, every dimension",
  "The tree is not tested; ties and insertion positions depend on the whole frequency vector.",
  ["pkg/corpus/dictionary/huffman.go", "pkg/corpus/dictionary/node/node.go"], [("HuffnamTree", "pkg/corpus/dictionary/huffman.go")], ["HuffnamTree"])
p("H02", "Tree paths run from the root to the word, limited as asked, under concurrency",
  "The path of a word in the Huffman tree lists its ancestors from the root down to the word itself; a depth limit d > 0 returns the first d entries of it (all, if there are fewer), and a limit of 0 returns the full path, as the command help says. Every call returns this same result, whatever limits earlier calls used and whichever other goroutines ask for the same word at the same time.",
  ["inputs", "histories", "schedules"], "every tree shape, every limit, every sequence of calls, every interleaving of two concurrent calls",
  "Nothing calls this in a test; the cache is filled by whichever training goroutine comes first.",
  ["pkg/corpus/dictionary/node/node.go", "pkg/model/word2vec/options.go", "pkg/model/word2vec/optimizer.go"], [("GetPath", "pkg/corpus/dictionary/node/node.go")], ["GetPath"])
p("M01", "Work is split among threads into contiguous parts that cover everything once",
  "For every number of threads t >= 1 and every data size n >= 0, the computed boundaries are t+1 non-decreasing indices that start at 0 and end at n, and the parts differ in size by at most one.",
  ["inputs"], "every thread count and data size",
  "No test; integer rounding is only visible for particular residues.",
  ["pkg/model/modelutil/modelutil.go"], [("IndexPerThread", "pkg/model/modelutil/modelutil.go")], ["IndexPerThread"])
p("M02", "Every word is offered to training exactly once per iteration, and training ends",
  "For word2vec and lexvec, each iteration presents every occurrence in the (filtered) document to the subsampling decision exactly once, and for glove each distinct co-occurring pair is trained exactly once per iteration, for every number of goroutines, batch size and scheduling of the goroutines. Training returns after the requested number of iterations, with all of that work done.",
  ["schedules", "configurations", "inputs"], "every document, goroutine count, batch size, iteration count and interleaving at synchronization points",
  "No test trains a model; lost or repeated work depends on scheduling and on sizes that do not divide evenly.",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go", "pkg/model/glove/glove.go"],
  [("train/batchTrain/trainPerThread", "pkg/model/word2vec/word2vec.go, pkg/model/lexvec/lexvec.go, pkg/model/glove/glove.go")],
  ["Model.Train"])
p("M03", "Skip-gram and CBOW with negative sampling perform the published update",
  "Training with negative sampling changes the vectors exactly as the skip-gram and CBOW update rules prescribe: the context words are the in-document neighbours within the (randomly shrunk) window, excluding the position itself; the target is pushed up and each sampled word other than the target is pushed down by learning rate times (label - sigmoid of the inner product), with sigmoid taken as 0 or 1 beyond the table's range; and the accumulated error is added to the skip-gram context word, or to exactly those words that CBOW had summed up. No other vector changes.",
  ["inputs", "configurations"], "every document, every parameter values before the step, window, sample size, learning rate and random choices",
  "No test trains a model, and random choices hide which words are used.",
  ["pkg/model/word2vec/model.go", "pkg/model/word2vec/optimizer.go"],
  [("trainOne/dowith", "pkg/model/word2vec/model.go"), ("negativeSampling.optim", "pkg/model/word2vec/optimizer.go")], ["Model.WordVector"])
p("M04", "Hierarchical softmax performs the published update along the word's path",
  "Training with hierarchical softmax walks the target word's Huffman path from the root, limited to the maximum depth, and at each inner node changes the node vector and the accumulated context error by learning rate times (1 - code of the next node - sigmoid of the inner product) times the other vector's old value, ending the walk at the first inner product beyond the sigmoid range. The accumulated error is then added to the skip-gram context word, or to exactly those words that CBOW had summed up, and no other word vector changes.",
  ["inputs", "configurations"], "every document, every parameter values before the step, window, depth limit, learning rate and random choices",
  "No test trains a model with hierarchical softmax.",
  ["pkg/model/word2vec/optimizer.go", "pkg/model/word2vec/model.go"], [("hierarchicalSoftmax.optim", "pkg/model/word2vec/optimizer.go")], ["Model.WordVector"])
p("M05", "The tabulated sigmoid is total, monotone and accurate on its range",
  "For every double strictly between -6 and 6 the tabulated sigmoid returns a value without panicking, the value lies strictly between 0 and 1, never decreases when the argument increases, and is within 0.004 of the true logistic function.",
  ["inputs"], "every double in (-6, 6)",
  "The one test evaluates the table at 3 with a condition that is always true; indices at the very edge of the range depend on rounding.",
  ["pkg/model/word2vec/sigmoid_table.go"], [("sigmoid", "pkg/model/word2vec/sigmoid_table.go")], ["sigmoid table"])
p("M06", "GloVe training performs the weighted least-squares updates of its solver",
  "For each co-occurring pair with count x, glove uses the target log x and the weight min(1, (x/xmax)^alpha), and updates both (word, context) orientations of the pair: with the error = weight * learning rate * (inner product + both biases - target), plain SGD subtracts error times the other vector's old value from each vector and the error from each bias, and AdaGrad divides each such step of a vector element by the square root of 1 plus the sum of that element's squared undivided steps so far, the present one included (for a bias: the earlier ones only). No other vector changes.",
  ["inputs", "configurations"], "every document, initial values, xmax, alpha, learning rate and solver",
  "No test trains glove.",
  ["pkg/model/glove/item.go", "pkg/model/glove/solver.go", "pkg/model/glove/glove.go"],
  [("makeItems", "pkg/model/glove/item.go"), ("trainOne", "pkg/model/glove/solver.go")], ["Model.WordVector"])
p("M07", "LexVec uses the requested word association measure",
  "The association value lexvec trains a co-occurring pair towards is, by relation type: the logarithm of count * N^s / (f1 * f2^s) for PMI (f1, f2 the frequencies of the word with the smaller and the larger id, N the corpus length, s the smoothing exponent), the same clipped below at 0 for PPMI, the count itself for collocation and its logarithm for log-collocation. Pairs that never co-occur have the value 0.",
  ["inputs", "configurations"], "every document, relation type and smoothing exponent",
  "No test trains lexvec.",
  ["pkg/model/lexvec/item.go", "pkg/model/lexvec/lexvec.go"], [("calculateRelation/makeItems", "pkg/model/lexvec/item.go")], ["Model.WordVector"])
p("M08", "LexVec training performs the least-squares update on window and sampled pairs",
  "For every selected position, lexvec updates the position's word vector with each in-document neighbour in the (randomly shrunk) window, excluding the position itself, and, after each neighbour, with the requested number of randomly sampled context vectors: both vectors of a pair move by learning rate times (inner product - association value) times the other's value before the update. No other vector changes.",
  ["inputs", "configurations"], "every document, initial values, window, sample size, learning rate and random choices",
  "No test trains lexvec.",
  ["pkg/model/lexvec/lexvec.go"], [("trainOne/update", "pkg/model/lexvec/lexvec.go")], ["Model.WordVector"])
p("M09", "The learning rate decays with progress and never leaves [min-lr, initial-lr]",
  "For word2vec and lexvec, after every learning-rate update during training the rate equals the initial rate times (1 - words processed in this iteration / corpus length), but at least the configured lower limit, for every corpus length, update interval and position. Between updates it does not change, and it never falls below the lower limit nor rises above the initial rate (when the limit does not exceed it).",
  ["inputs", "configurations"], "every corpus length, update interval, progress, initial rate and limit",
  "No test runs an iteration; the limit only matters at particular ratios of progress to corpus length.",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go"], [("observe", "pkg/model/word2vec/word2vec.go, pkg/model/lexvec/lexvec.go")], ["learning rate during Train"])
p("M10", "Subsampling selects an occurrence with the configured probability",
  "An occurrence of a word of corpus frequency f is selected exactly when a uniform draw from [0,1) lies below max(0, 1 - sqrt(threshold/f)); each word's probability depends only on its own frequency and the threshold. In particular a threshold of 0 selects every occurrence and a threshold of at least f selects none.",
  ["inputs"], "every vocabulary, frequency, threshold and draw",
  "No test; a random decision cannot be pinned by example.",
  ["pkg/model/modelutil/subsample/subsample.go"], [("New/Trial", "pkg/model/modelutil/subsample/subsample.go")], ["Trial"])
p("M11", "The fast random generator stays in range and does not get stuck, from any state",
  "For every positive bound and every generator state, a draw of the fast generator is an integer from 0 up to, but not including, the bound. The generator does not get stuck: for a bound that is a power of two, as many successive draws as the bound take each value exactly once, from every state (a full-period linear congruential generator).",
  ["inputs", "histories"], "every bound in 1..2^63-1 and every 64-bit generator state",
  "No test; wrap-around and sign problems only show for particular states.",
  ["pkg/model/modelutil/modelutil.go"], [("NextRandom", "pkg/model/modelutil/modelutil.go")], ["NextRandom"])
p("M12", "Exported word vectors: one row per word, word vector or word plus context",
  "After training any model, the exported matrix has one row per dictionary word, in id order, and the configured dimension as columns. For type 'single' row i is the word vector of word i; for type 'agg' it is the sum of the word vector and the context vector of word i (word2vec with hierarchical softmax has no context vectors and exports the word vector). Exporting does not change the model, and every freshly initialised parameter comes from its own random draw, within 1/dim.",
  ["inputs", "configurations"], "every vocabulary, dimension, parameter values, model and vector type",
  "No test exports vectors.",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go"], [("WordVector", "pkg/model/*/")], ["Model.WordVector"])
p("M13", "Unknown model, optimizer, solver, relation, count or vector types are rejected",
  "Training with a model type, optimizer type, solver type, relation type or count type that is not one of the documented values returns an error on every non-trivial corpus and never trains, panics or hangs; saving a trained model with a vector type that is not one of the documented values returns an error and writes nothing. Each documented value is accepted.",
  ["configurations"], "every option string",
  "Only the count type is tested, with a single wrong value.",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/item.go", "pkg/corpus/cooccurrence/cooccurrence.go"], [("Train", "pkg/model/*/"), ("calculateRelation", "pkg/model/lexvec/item.go")], ["Model.Train"])
p("M14", "Training any text with valid hyperparameters completes with a vector per word",
  "For every text, including empty and one-word texts, and all valid hyperparameters (window, dimension, goroutines, batch sizes and iterations of at least 1, any filters), training any of the models finishes without error or panic, and saving afterwards writes exactly one line per distinct word.",
  ["inputs", "configurations"], "every text and combination of valid hyperparameters, all models, solvers, optimizers and corpus kinds",
  "No test trains a model.",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go"], [("Train/Save", "pkg/model/*/")], ["Model.Train", "Model.Save"])
p("A01", "Matrix rows are disjoint, correctly sized and initialised once each",
  "A matrix of r rows and c columns reports those sizes, calls the initialiser exactly once per row with the row's index and a view of that row, and row views have c elements, always show the current contents of the same row, and never overlap another row.",
  ["inputs"], "every size, row and element, every written value",
  "No test; overlap depends on index arithmetic.",
  ["pkg/model/modelutil/matrix/matrix.go"], [("New/Slice", "pkg/model/modelutil/matrix/matrix.go")], ["Matrix.Slice"])
p("E01", "Saved word vectors load back as the same words and values",
  "Saving word vectors and loading the result yields one embedding per dictionary word, in id order, with the same word, the same dimension and every value equal to the saved one up to 6 decimal places, for every vocabulary and every finite matrix of at least one column. Each word is written as one line of the form '<word> <value_1> ... <value_N>'.",
  ["inputs"], "every vocabulary without white space, every finite matrix",
  "Nothing tests saving; loading is tested on literal text only.",
  ["pkg/model/modelutil/vector/vector.go", "pkg/embedding/embedding.go"], [("Save", "pkg/model/modelutil/vector/vector.go"), ("Load/parse/parseLine", "pkg/embedding/embedding.go")], ["vector.Save", "embedding.Load"])
p("E02", "Saving reports failure unless every byte was accepted by the writer",
  "Saving word vectors returns nil only if the writer accepted the complete output; if any write fails or the number of matrix rows differs from the dictionary size, saving returns an error.",
  ["fault_sequences", "inputs"], "every position at which a write fails, every mismatch of sizes",
  "Nothing tests saving.",
  ["pkg/model/modelutil/vector/vector.go"], [("Save", "pkg/model/modelutil/vector/vector.go")], ["vector.Save", "Model.Save"])
p("E03", "Loading embeddings accepts exactly well-formed lines",
  "Loading returns one embedding per line (lines starting with a space are skipped), whose word is the first field, whose vector is the remaining fields parsed as floating-point numbers, whose dimension is their number and whose norm is the Euclidean norm of the vector. A line with fewer than two fields or with a value that is not a number, or a reader failure, makes loading fail with an error and no result.",
  ["inputs", "fault_sequences"], "every text, every reader fault",
  "Three literal well-formed inputs are tested; no malformed input is.",
  ["pkg/embedding/embedding.go", "pkg/embedding/embutil/embutil.go"], [("parse/parseLine/Validate", "pkg/embedding/embedding.go"), ("Norm", "pkg/embedding/embutil/embutil.go")], ["embedding.Load"])
p("E04", "Embedding collections are validated and looked up exactly",
  "An embedding is valid exactly when its word is not empty, its dimension is not zero and its vector has exactly that many elements; a searcher can be created from a collection exactly when all its dimensions are equal. Looking a word up in a collection finds the first embedding with that word, and reports absence exactly when there is none.",
  ["inputs"], "every collection of embeddings and every word",
  "No test covers validation or lookup.",
  ["pkg/embedding/embedding.go", "pkg/search/search.go"], [("Validate/Find/Empty", "pkg/embedding/embedding.go"), ("New", "pkg/search/search.go")], ["Embedding.Validate", "Embeddings.Validate", "Embeddings.Find", "search.New"])
p("S01", "Search returns the k most similar items, correctly ranked",
  "Searching returns the k items with the highest positive similarity to the query among those not ignored (all of them if there are fewer than k, none if k is not positive), in order of non-increasing similarity with ranks 1, 2, 3, ..., each entry carrying the word and the similarity of one item, no item twice. It never panics, and a query whose dimension differs from the items' is answered with an error.",
  ["inputs"], "every collection of items, query, k and set of ignored words",
  "Two tests search for one neighbour among four items; fewer items than k, ties and displaced entries are not reached.",
  ["pkg/search/search.go"], [("Search", "pkg/search/search.go")], ["Searcher.Search", "Searcher.SearchVector"])
p("S02", "Searching by word uses that word's vector and never returns the word itself",
  "Searching neighbours of a stored word gives the same result as searching with that word's (first) stored vector while ignoring the word; the word itself never appears in the result. A word that is not stored is answered with an error and no result.",
  ["inputs"], "every collection of items, every word, every k",
  "One example is tested.",
  ["pkg/search/search.go"], [("SearchInternal", "pkg/search/search.go")], ["Searcher.SearchInternal"])
p("S03", "Similarity is the cosine of the two vectors",
  "The similarity of two vectors is their inner product divided by the product of their Euclidean norms, and 0 if either norm is 0; it is symmetric and lies in [-1, 1]. The similarity reported by a vector search is this value, whatever norm or direction the query has.",
  ["inputs"], "all vectors of equal dimension",
  "One example is tested.",
  ["pkg/search/searchutil/searchutil.go", "pkg/embedding/embutil/embutil.go"], [("Cosine", "pkg/search/searchutil/searchutil.go"), ("Norm", "pkg/embedding/embutil/embutil.go")], ["Cosine", "Searcher.SearchVector"])
p("S04", "The console computes word arithmetic and answers each line on its own",
  "For a line 'x + y' or 'x - y' the console shows the neighbours of the element-wise sum or difference of the two words' vectors, without the two words themselves; for a single word it shows that word's neighbours. Unknown words, other operators and other expressions produce an error message and no neighbours, the answer to a line does not depend on earlier lines, and the console ends on 'exit' and when its input ends.",
  ["inputs", "histories"], "every sequence of input lines, every collection of items",
  "The console has no test.",
  ["pkg/search/console/console.go", "pkg/search/console/op.go"], [("Run/eval/evalExpr", "pkg/search/console/console.go"), ("elementWise", "pkg/search/console/op.go")], ["Console.Run"])
p("K01", "Training commands never touch an existing output and need an existing input",
  "The word2vec, glove and lexvec commands return an error and leave every file unchanged if the output path already exists or the input path does not; otherwise (profiling left aside) they train on the input file with the given options and write the saved vectors, of the requested vector type, to the output path only.",
  ["inputs", "configurations"], "every combination of existing and missing input and output paths, the three commands",
  "No test runs a command.",
  ["cmd/model/word2vec/word2vec.go", "cmd/model/glove/glove.go", "cmd/model/lexvec/lexvec.go"], [("execute", "cmd/model/*/")], ["RunE of the commands, file system"])
p("K02", "Each command flag sets its own option, and defaults equal the SDK defaults",
  "On the word2vec, glove and lexvec commands every hyperparameter flag sets exactly the option it is named after and no other, and without flags the options equal the SDK's default options.",
  ["configurations"], "every flag, every value of it",
  "No test parses flags.",
  ["pkg/model/word2vec/options.go", "pkg/model/glove/options.go", "pkg/model/lexvec/options.go"], [("LoadForCmd/DefaultOptions", "pkg/model/*/options.go")], ["LoadForCmd"])
p("K03", "Each SDK option function sets exactly its own option",
  "Every functional option of word2vec, glove and lexvec sets the option it is named after to the given value and leaves all other options as they were, for every prior setting and every value. New applies the given options, in order, to the default options, and makes the model that NewForOptions makes of the result.",
  ["configurations"], "every option function, prior options and value",
  "No test uses options.",
  ["pkg/model/word2vec/options.go", "pkg/model/glove/options.go", "pkg/model/lexvec/options.go"], [("ModelOption functions", "pkg/model/*/options.go"), ("New", "pkg/model/*/")], ["ModelOption", "New"])
p("K04", "The query command answers from the given file or fails with an error",
  "The query command, given exactly one word and an existing vector file, shows the requested number of that word's nearest neighbours in that file; with any other number of arguments, a missing or malformed file, vectors of differing dimensions or an unknown word it returns an error and shows nothing.",
  ["inputs", "configurations"], "every file content, argument list and rank",
  "No test runs a command.",
  ["cmd/query/query.go", "pkg/search/search.go", "pkg/embedding/embedding.go"], [("execute", "cmd/query/query.go")], ["RunE of the command"])

here = os.path.dirname(os.path.abspath(__file__))
p("M15", "Models are independent of each other",
  "Training, exporting or saving one model never changes what another model exports or saves, in whatever order the models are created and trained, and also when they are trained at the same time in different goroutines: given its random draws and choices, a model's vectors depend on its own text and options only. A model that is trained again, after a training that succeeded or failed, has the vectors of a new model.",
  ["inputs", "histories", "schedules"], "every pair of models, texts and options, every order of the calls, every interleaving",
  "No test has two models; a buffer, cache or table shared by mistake shows only with a certain second model or interleaving.",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/word2vec/model.go", "pkg/model/word2vec/optimizer.go", "pkg/model/glove/glove.go", "pkg/model/glove/solver.go", "pkg/model/lexvec/lexvec.go", "pkg/model/lexvec/item.go", "pkg/model/modelutil/modelutil.go", "pkg/model/modelutil/vector/vector.go"],
  [("NewForOptions/Train/WordVector/Save", "pkg/model/*/"), ("Save", "pkg/model/modelutil/vector/vector.go")], ["Model.WordVector", "Model.Save"])
p("M16", "In-memory and file-backed training give the same vectors",
  "With one goroutine, a batch size of at least the number of words to train on and the same random draws and choices, training with the document in memory and training from the reader give the same exported vectors and the same saved bytes, and make the same random choices, for every text, model and filter.",
  ["inputs", "configurations"], "every text, model kind, window, filter, letter case and random choice",
  "No test trains any model, let alone in both modes; the two modes have separate training loops.",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/word2vec/model.go", "pkg/model/word2vec/optimizer.go", "pkg/model/glove/glove.go", "pkg/model/glove/solver.go", "pkg/model/lexvec/lexvec.go", "pkg/model/lexvec/item.go", "pkg/model/modelutil/modelutil.go", "pkg/model/modelutil/vector/vector.go", "pkg/corpus/fs/fs.go", "pkg/corpus/memory/memory.go"],
  [("train/batchTrain", "pkg/model/word2vec/word2vec.go, pkg/model/lexvec/lexvec.go"), ("BatchWords/IndexedDoc", "pkg/corpus/fs/fs.go, pkg/corpus/memory/memory.go")], ["Model.WordVector", "Model.Save"])
p("S05", "Searches are read-only and independent of each other",
  "A search never changes the searcher's items, its query or its list of words to ignore; its result depends only on the items and its own arguments, whatever was searched before, whether earlier searches failed, and whatever is done with earlier results. Searches that run at the same time on one searcher give the results they give one after the other.",
  ["inputs", "histories", "schedules"], "every collection, every sequence and interleaving of searches of all three kinds",
  "Tests run one search per searcher; a reused buffer shows only in the second search or in a certain interleaving.",
  ["pkg/search/search.go", "pkg/search/searchutil/searchutil.go", "pkg/embedding/embedding.go"],
  [("Search/SearchInternal/SearchVector", "pkg/search/search.go"), ("Cosine", "pkg/search/searchutil/searchutil.go")], ["Searcher"])
p("P01", "What a training command writes is what the query commands answer from",
  "After a training command has run on a text, the query command on its output answers every word of the text (as it is spelled after lower-casing, if requested), without error, with at most the requested number of other words of that text, each once, in order of similarity; any other word is an error. The console likewise answers words, sums and differences, and reports words that are not in the text.",
  ["inputs", "configurations"], "every text, training command and its options, every query and rank",
  "No test runs two commands one after the other; writing and reading share no code, only the format.",
  ["cmd/model/word2vec/word2vec.go", "cmd/model/glove/glove.go", "cmd/model/lexvec/lexvec.go", "cmd/query/query.go", "cmd/query/console/console.go", "pkg/model/modelutil/vector/vector.go", "pkg/embedding/embedding.go", "pkg/search/search.go"],
  [("execute", "cmd/model/*/, cmd/query/query.go, cmd/query/console/console.go"), ("Save", "pkg/model/modelutil/vector/vector.go"), ("Load", "pkg/embedding/embedding.go")], ["RunE of the commands, file system"])
p("V01", "Verbose mode and the logging interval change only what is printed",
  "With verbose mode on, for any logging interval, loading a corpus, training any model and saving it give exactly the dictionary, counts, co-occurrences, vectors and saved bytes, and fail on exactly the same inputs, as with verbose mode off. The totals that are printed are true: the number of words read, the number of co-occurring pairs read, the number of words trained in each iteration (word2vec and LexVec), one line for each iteration, and the number of words saved.",
  ["inputs", "configurations"], "every text, model kind, corpus kind, filter and logging interval",
  "No test runs anything in verbose mode; the progress code is interleaved with the reading, training and saving code, so that an early return or a shared counter in it changes results.",
  ["pkg/util/verbose/verbose.go", "pkg/util/clock/clock.go", "pkg/corpus/fs/fs.go", "pkg/corpus/memory/memory.go", "pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go", "pkg/model/modelutil/vector/vector.go"],
  [("Verbose.Do", "pkg/util/verbose/verbose.go"), ("observe", "pkg/model/word2vec/word2vec.go, pkg/model/lexvec/lexvec.go"), ("Save", "pkg/model/modelutil/vector/vector.go")],
  ["standard output", "Corpus", "Model.WordVector", "Model.Save"])
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
