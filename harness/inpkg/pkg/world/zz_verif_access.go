package world

// VfRoot gives the harnesses the containment tree of a World, top level included.
func VfRoot(w World) Tree { return w.(*world).Tree }
