package vsim

import "io"

// Recorder stands for the CPU profiler or the execution tracer.
type Recorder struct {
	Running  bool
	Starts   int
	Stops    int
	StartAt  int64
	StopAt   int64
	Produced []byte // everything handed to the writer in the last session
	Err      error  // first write error, which the recorder ignores
	live     bool   // write while running
	OnStart  func()
	OnStop   func()

	w    io.Writer
	stop bool
	done bool
	q    WaitQ
	seq  byte
}

// CPU is the profiler and Tracer the tracer of the simulated process.
var (
	CPU    = &Recorder{}
	Tracer = &Recorder{live: true}
)

// ResetRecorders forgets earlier sessions.
func ResetRecorders() {
	*CPU = Recorder{}
	*Tracer = Recorder{live: true}
}

func (r *Recorder) emit(n int) {
	b := make([]byte, n)
	for i := range b {
		r.seq++
		b[i] = 'A' + r.seq%26
	}
	r.Produced = append(r.Produced, b...)
	if _, err := r.w.Write(b); err != nil && r.Err == nil {
		r.Err = err
	}
}

// Begin starts a session.
func (r *Recorder) Begin(w io.Writer) {
	r.Running, r.stop, r.done = true, false, false
	r.Starts++
	r.StartAt = Now()
	r.Produced, r.Err, r.w = nil, nil, w
	if r.OnStart != nil {
		r.OnStart()
	}
	if !r.live {
		return
	}
	Spawn(func() {
		r.emit(700)
		for n := 0; !r.stop && n < 40; n++ {
			Sleep(2_000_000)
			r.emit(300)
		}
		for !r.stop {
			r.q.Wait()
		}
		r.emit(900)
		r.done = true
		r.q.WakeAll()
	})
}

// End stops the session and returns when everything has been written.
func (r *Recorder) End() {
	if !r.Running || dying {
		return
	}
	r.stop = true
	if r.live {
		r.q.WakeAll()
		for !r.done {
			r.q.Wait()
		}
	} else {
		r.emit(5000)
		r.emit(2100)
	}
	r.Running = false
	r.Stops++
	r.StopAt = Now()
	if r.OnStop != nil {
		r.OnStop()
	}
}
