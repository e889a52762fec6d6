package mon

// InitProbe is part of C06, which does not run on 32-bit targets.
func InitProbe() {}

// FaultProbe is part of C23.
func FaultProbe(string) {}

// QuietProbe is part of C25.
func QuietProbe(string) {}

// LimitProbe is for 64-bit lengths.
func LimitProbe(string) {}

func c01limit(*C, int) {}
