package utils

// Specification intrinsics. They are interpreted by /verif/engine and never executed.

// VRequires states a precondition.
func VRequires(label string, c bool) {}

// VEnsures states a postcondition; the label starts with the properties it belongs to.
func VEnsures(label string, c bool) {}

// VAssert states an intermediate fact that is proved and then available.
func VAssert(label string, c bool) {}

// VDecreases is the termination measure of a recursive function.
func VDecreases(m int) {}

// VForall and VExists quantify over the parameters of a func(...) bool.
func VForall(f any) bool { return true }
func VExists(f any) bool { return true }

// VOld evaluates f in the state before the call.
func VOld[T any](f func() T) T { return f() }

// VFresh states that a returned pointer, map or slice is nil or newly allocated.
func VFresh(x any) {}

// VModifies permits changes of the object x points to.
func VModifies(x any) {}

// VEntry applies lemmas to the state at the start of the function.
func VEntry(f func()) {}

// VUse unfolds the definition of the specification function called by f.
func VUse(f any) {}

// VWire states that a message is one that can be received or stored: repeated messages and oneof payloads are not nil.
func VWire(x any) bool { return true }

// VIsNew states that a pointer refers to an object allocated since the function started.
func VIsNew(x any) bool { return true }

// VDebug prints the term of x while obligations are generated.
func VDebug(label string, x any) {}

// VGhost is a mathematical map that stands for the contents of a store.
type VGhost[K any, V any] struct{ _ [0]K; _ [0]V }

func (g *VGhost[K, V]) Has(k K) bool { return false }
func (g *VGhost[K, V]) Get(k K) V    { var v V; return v }

// VSet states the contents of g after the call in terms of the contents before.
func VSet[K any, V any](g *VGhost[K, V], f func(k K) (bool, V)) {}

// VHavoc states that the contents of g after the call are not known.
func VHavoc[K any, V any](g *VGhost[K, V]) {}

// VAssign sets specification-only state.
func VAssign[K any, V any](g *VGhost[K, V], f func(k K) (bool, V)) {}

// VDistinct: two different objects
func VDistinct(x, y any) bool { return true }

// VDecreases3 is a lexicographic measure.
func VDecreases3(a, b, c int) {}

// VLeft counts the strings of a finite set that are not keys of the map.
func VLeft(m map[string]struct{}, in func(string) bool) int { return 0 }

// VSame: two slices are the same part of the same array
func VSame[T any](x, y []T) bool { return true }
