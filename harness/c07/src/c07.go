package c07

import (
	"bufio"
	"context"
	"errors"
	"io"
	iofs "io/fs"
	"os"
	"strings"
	"syscall"

	"github.com/ynqa/wego/pkg/corpus"

	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
	"github.com/ynqa/wego/pkg/corpus/cpsutil"
	"github.com/ynqa/wego/pkg/corpus/fs"
	"github.com/ynqa/wego/pkg/corpus/memory"
	"github.com/ynqa/wego/zzverif/lib"
	"github.com/ynqa/wego/zzverif/vp"
)

// broken reads text in small pieces and fails at an arbitrary read or seek;
// it may hand out bytes together with the failure.
type broken struct {
	data       string
	pos        int
	size       int
	read, seek int // remaining successful calls, negative: never fails
	partial    bool
	sticky     bool
	failed     bool
	dead       bool
	cause      error
}

// over wraps an error, as readers of compressed or remote data do.
type over struct{ err error }

func (e over) Error() string { return e.err.Error() }
func (e over) Unwrap() error { return e.err }

var causes = []error{
	errors.New("broken"),
	io.ErrUnexpectedEOF, // a truncated compressed stream
	over{io.EOF},        // not the end of the text: only io.EOF itself is
	errors.New("EOF"),
	io.ErrNoProgress,
	bufio.ErrTooLong,
	os.ErrClosed,
	syscall.EINTR,
	io.ErrClosedPipe,
	io.ErrShortBuffer,
	io.ErrShortWrite,
	bufio.ErrFinalToken,
	bufio.ErrNegativeAdvance,
	bufio.ErrBufferFull,
	os.ErrDeadlineExceeded,
	os.ErrNotExist,
	os.ErrInvalid,
	iofs.SkipDir,
	syscall.EAGAIN,
	syscall.EIO,
	syscall.EPIPE,
	syscall.ECONNRESET,
	context.Canceled,
	context.DeadlineExceeded,
	&os.PathError{Op: "read", Path: "x", Err: io.EOF},
	timeout{},
}

// timeout is a temporary error.
type timeout struct{}

func (timeout) Error() string   { return "timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

func (r *broken) Read(p []byte) (int, error) {
	if r.dead {
		return 0, r.cause
	}
	if r.read == 0 {
		r.read = -1
		r.failed, r.dead = true, r.sticky
		if r.partial && r.pos < len(r.data) && len(p) > 0 {
			p[0] = r.data[r.pos]
			r.pos++
			return 1, r.cause
		}
		return 0, r.cause
	}
	r.read--
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	n := r.size
	if n > len(r.data)-r.pos {
		n = len(r.data) - r.pos
	}
	n = copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	return n, nil
}

func (r *broken) Seek(off int64, whence int) (int64, error) {
	if r.dead {
		return int64(vp.Int("seek", 0, 1<<20)), r.cause // the position means nothing
	}
	if r.seek == 0 {
		r.seek = -1
		r.failed, r.dead = true, r.sticky
		return int64(vp.Int("seek", 0, 1<<20)), r.cause // the position means nothing
	}
	r.seek--
	switch whence {
	case io.SeekStart:
		r.pos = int(off)
	case io.SeekCurrent:
		r.pos += int(off)
	case io.SeekEnd:
		r.pos = len(r.data) + int(off)
	}
	return int64(r.pos), nil
}

// reader is one with an arbitrary fault; the fault need not be reached.
func reader(text string, reads, seeks int) *broken {
	r := &broken{data: text, size: vp.Choose("size", 3) + 1, read: -1, seek: -1, cause: causes[0]}
	if vp.Choose("what", 2) == 0 {
		r.read = vp.Int("read", 0, reads)
		r.partial = vp.Choose("partial", 2) == 1
	} else {
		r.seek = vp.Int("seek", 0, seeks)
	}
	r.sticky = vp.Choose("sticky", 2) == 1
	return r
}

func judge(r *broken, err error) {
	if r.failed {
		vp.Reach("failed")
		vp.Assert(err != nil, "the corpus could not be read, but no error is reported")
	} else {
		vp.Reach("fine")
		vp.Assert(err == nil, "an error is reported though every read and rewind succeeded")
	}
}

// Load: loading a corpus of either kind.
func Load() {
	text, _ := lib.Text(vp.Param("n", 4), "ab")
	r := reader(text, 24, 4)
	var c corpus.Corpus
	if vp.Choose("mem", 2) == 1 {
		c = memory.New(r, false, -1, 0)
	} else {
		c = fs.New(r, false, -1, 0)
	}
	var with *corpus.WithCooccurrence
	if vp.Choose("with", 2) == 1 {
		with = &corpus.WithCooccurrence{CountType: co.Increment, Window: vp.Choose("win", 3) + 1}
	}
	judge(r, c.Load(with, lib.Quiet(), 100))
}

// Causes: whatever the error is.
func Causes() {
	r := reader("a b", 8, 3)
	r.cause = causes[vp.Choose("cause", len(causes))]
	var c corpus.Corpus
	if vp.Choose("mem", 2) == 1 {
		c = memory.New(r, false, -1, 0)
	} else {
		c = fs.New(r, false, -1, 0)
	}
	err := c.Load(&corpus.WithCooccurrence{CountType: co.Increment, Window: 1}, lib.Quiet(), 100)
	judge(r, err)
	if err != nil {
		return
	}
	ch, res := make(chan []int, 4), make(chan error, 1)
	if _, ok := c.(*fs.Corpus); ok {
		go func() { res <- c.BatchWords(ch, 1) }()
		for range ch {
		}
		judge(r, <-res)
	}
}

// Batch: handing out the words of a loaded corpus in batches.
func Batch() {
	text, _ := lib.Text(vp.Param("n", 4), "ab")
	r := reader(text, 24, 4)
	c := fs.New(r, false, -1, 0)
	err := c.Load(nil, lib.Quiet(), 100)
	judge(r, err)
	if err != nil {
		return
	}
	ch, res := make(chan []int, vp.Choose("cap", 2)), make(chan error, 1)
	go func() { res <- c.BatchWords(ch, vp.Choose("batch", 3)+1) }()
	for range ch { // ends, whatever happens
	}
	judge(r, <-res)
}

// Train: training each model.
func Train() {
	lib.Fixed()
	text := "a b a c"
	m := lib.Default(lib.Kinds[vp.Choose("kind", len(lib.Kinds))])
	m.Mem = vp.Choose("mem", 2) == 1
	m.Iter, m.Threads, m.Batch = vp.Param("iter", 2), vp.Choose("threads", vp.Param("threads", 2))+1, vp.Choose("batch", 2)*2+1
	r := reader(text, 40, 6)
	judge(r, m.New().Train(r))
}

// Schedules: training with any order of the goroutines.
func Schedules() {
	lib.Fixed()
	m := lib.Default([]string{"skipgram-ns", "lexvec"}[vp.Choose("kind", 2)])
	m.Iter, m.Threads, m.Batch = 1, vp.Choose("threads", 2)+1, 1
	r := &broken{data: "a b c"[:2*vp.Param("words", 2)-1], size: 3, read: -1, seek: -1, cause: causes[0]}
	if vp.Choose("what", 2) == 0 {
		r.read = vp.Int("read", 1, 4)
	} else {
		r.seek = vp.Int("seek", 1, 2)
	}
	judge(r, m.New().Train(r))
}

// Late: failures in texts that are longer than the buffers.
func Late() {
	lib.Fixed()
	n := vp.Param("n", 4000)
	var b strings.Builder
	for _, w := range lib.Many(n) {
		b.WriteString(w)
		b.WriteByte(' ')
	}
	r := &broken{data: b.String(), size: vp.Param("size", 4096), read: -1, seek: -1, cause: causes[0], partial: vp.Choose("partial", 2) == 1, sticky: vp.Choose("sticky", 2) == 1}
	r.read = vp.Int("read", 0, vp.Param("reads", 16))
	kind := vp.Choose("kind", vp.Param("kinds", 3))
	if kind == 0 {
		m := lib.Default("lexvec")
		m.Mem = vp.Choose("mem", 2) == 1
		m.Window, m.Iter, m.Threads, m.Batch = 1, 2, 2, 1000
		m.MinCount = 2 // trains nothing
		judge(r, m.New().Train(r))
		return
	}
	var c corpus.Corpus
	if kind == 1 {
		c = memory.New(r, false, -1, 0)
	} else {
		c = fs.New(r, false, -1, 0)
	}
	err := c.Load(&corpus.WithCooccurrence{CountType: co.Increment, Window: 1}, lib.Quiet(), 100)
	judge(r, err)
	if err != nil || kind == 1 {
		return
	}
	ch, res := make(chan []int, 4), make(chan error, 1)
	go func() { res <- c.BatchWords(ch, 1000) }()
	for range ch {
	}
	judge(r, <-res)
}

// Callback: what the caller's function reports ends the reading of words.
func Callback() {
	n := vp.Choose("words", vp.Param("n", 5)) + 1
	text, ws := lib.Text(n, "abcde")
	window := vp.Choose("window", n+1) + 1
	kind := vp.Choose("kind", 2)
	calls := 0
	switch kind {
	case 0:
		calls = len(ws)
	default:
		for i := range ws {
			for d := 1; d <= window && i+d < len(ws); d++ {
				calls++
			}
		}
	}
	at := vp.Choose("at", calls+1) // the call that fails, calls: none
	cause := errors.New("refused")
	done := 0
	fn := func() error {
		done++
		if done-1 == at {
			return cause
		}
		return nil
	}
	var err error
	switch kind {
	case 0:
		err = cpsutil.ReadWord(lib.NewReader(text), func(string) error { return fn() })
	case 1:
		err = cpsutil.ReadWordWithForwardContext(lib.NewReader(text), window, func(_, _ string) error { return fn() })
	}
	if at == calls {
		vp.Reach("fine")
		vp.Assert(err == nil && done == calls, "reading without any failure fails or skips words")
		return
	}
	vp.Reach("failed")
	vp.Assert(err != nil, "the failure of the function called with the words is not reported")
}
