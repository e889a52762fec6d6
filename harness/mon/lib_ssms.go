//go:build !386

package mon

import (
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/worker"
)

// HaveSSMS: the SSMS and worker packages do not compile on 32-bit targets.
const HaveSSMS = true

func workerShamirSplitters() []Splitter {
	w := worker.NewWorker()
	return []Splitter{{"worker.Split(shamir)", false, func(s []byte, n, k int) ([][]byte, error) { return w.Split(worker.AlgShamir, s, n, k) }}}
}

func workerShamirCombiners() []Combiner {
	w := worker.NewWorker()
	return []Combiner{{"worker.Combine(shamir)", false, func(s [][]byte, n, k int) ([]byte, error) { return w.Combine(worker.AlgShamir, s, n, k) }}}
}

func ssmsSplitters() []Splitter { return ssmsSplittersOn(csprng.NewCSPRNG()) }

func ssmsSplittersOn(r *csprng.CSPRNG) []Splitter {
	w := worker.NewWorker()
	return []Splitter{
		{"krawczyk.Split", true, krawczyk.Split},
		{"krawczyk.SplitWithRandomizer", true, func(s []byte, n, k int) ([][]byte, error) { return krawczyk.SplitWithRandomizer(s, n, k, r) }},
		{"worker.Split(krawczyk)", true, func(s []byte, n, k int) ([][]byte, error) { return w.Split(worker.AlgSSMS, s, n, k) }},
	}
}

func ssmsCombiners() []Combiner {
	w := worker.NewWorker()
	return []Combiner{
		{"krawczyk.Combine", true, krawczyk.Combine},
		{"worker.Combine(krawczyk)", true, func(s [][]byte, n, k int) ([]byte, error) { return w.Combine(worker.AlgSSMS, s, n, k) }},
	}
}

func allSplitters() []Splitter { return append(shamirSplitters(), ssmsSplitters()...) }

// workerPair is a worker's two methods.
type workerPair struct {
	// Copy is a copy of the worker value made now.
	Copy    func() workerPair
	Split   func(alg string, s []byte, n, k int) ([][]byte, error)
	Combine func(alg string, s [][]byte, n, k int) ([]byte, error)
}

const (
	algShamir = worker.AlgShamir
	algSSMS   = worker.AlgSSMS
)

func newWorker() workerPair {
	return pairOf(worker.NewWorker())
}

func pairOf(w worker.Worker) workerPair {
	return workerPair{func() workerPair { return pairOf(w) }, w.Split, w.Combine}
}

func ssmsWith(r *csprng.CSPRNG) []Splitter {
	return []Splitter{{"krawczyk.SplitWithRandomizer", true, func(s []byte, n, k int) ([][]byte, error) { return krawczyk.SplitWithRandomizer(s, n, k, r) }}}
}

func c14ssms() []Splitter          { return ssmsSplitters() }
func c14ssmsCombiners() []Combiner { return ssmsCombiners() }
