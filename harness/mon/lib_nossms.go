//go:build 386

package mon

// HaveSSMS: the SSMS and worker packages do not compile on 32-bit targets.
const HaveSSMS = false

func workerShamirSplitters() []Splitter { return nil }
func workerShamirCombiners() []Combiner { return nil }
func ssmsSplitters() []Splitter         { return nil }
func ssmsCombiners() []Combiner         { return nil }
func ssmsWith(any) []Splitter           { return nil }
func allSplitters() []Splitter          { return shamirSplitters() }

func c14ssms() []Splitter          { return nil }
func c14ssmsCombiners() []Combiner { return nil }

func newWorkerShamir() []Splitter { return nil }
