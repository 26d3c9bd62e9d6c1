package types

import (
	vt "github.com/sourcenetwork/zanzi/internal/utils"
)

// The generic container is verified at T = string: its code cannot look into a T.

// vEdge: b is a successor of a; vBack: a is an ancestor of b
func vEdge(g *MapGraph[string], a, b string) bool {
	_, ok := g.forwardEdges[a][b]
	return ok
}

func vBack(g *MapGraph[string], a, b string) bool {
	_, ok := g.backwardEdges[b][a]
	return ok
}

func vNode(g *MapGraph[string], id string) bool {
	_, ok := g.nodes[id]
	return ok
}

func vHasF(g *MapGraph[string], id string) bool {
	_, ok := g.forwardEdges[id]
	return ok
}

func vHasB(g *MapGraph[string], id string) bool {
	_, ok := g.backwardEdges[id]
	return ok
}

// vGraphInv: both directions agree, edges join nodes and the edge maps are not shared
func vGraphInv(g *MapGraph[string]) bool {
	return g.nodes != nil && g.forwardEdges != nil && g.backwardEdges != nil &&
		vt.VDistinct(g.forwardEdges, g.backwardEdges) &&
		vt.VForall(func(a string) bool {
			return (!vHasF(g, a) || g.forwardEdges[a] != nil) && (!vHasB(g, a) || g.backwardEdges[a] != nil)
		}) &&
		vt.VForall(func(a, b string) bool {
			return (a == b || !vHasF(g, a) || !vHasF(g, b) || vt.VDistinct(g.forwardEdges[a], g.forwardEdges[b])) &&
				(a == b || !vHasB(g, a) || !vHasB(g, b) || vt.VDistinct(g.backwardEdges[a], g.backwardEdges[b])) &&
				(!vHasF(g, a) || !vHasB(g, b) || vt.VDistinct(g.forwardEdges[a], g.backwardEdges[b]))
		}) &&
		vt.VForall(func(a, b string) bool { return vEdge(g, a, b) == vBack(g, a, b) }) &&
		vt.VForall(func(a, b string) bool { return !vEdge(g, a, b) || vNode(g, a) && vNode(g, b) })
}

//vc:contract New[string]
//vc:props C20
//vc:top
func vcNewGraph(g MapGraph[string]) {
	vt.VEnsures("a new graph is sound", vGraphInv(&g))
	vt.VEnsures("a new graph is empty", vt.VForall(func(a, b string) bool {
		return !vNode(&g, a) && !vEdge(&g, a, b) && !vBack(&g, a, b)
	}))
}

//vc:contract (*MapGraph[string]).SetNode
//vc:props C20
//vc:top
func vcSetNode(g *MapGraph[string], id string, node string) {
	vt.VRequires("sound", g != nil && vGraphInv(g))
	vt.VModifies(g.nodes)
	vt.VEnsures("the graph stays sound", vGraphInv(g))
	vt.VEnsures("the node is set", vNode(g, id) && g.nodes[id] == node)
	vt.VEnsures("no other node changes", vt.VForall(func(k string) bool {
		return k == id || vNode(g, k) == vt.VOld(func() bool { return vNode(g, k) }) && g.nodes[k] == vt.VOld(func() string { return g.nodes[k] })
	}))
	vt.VEnsures("no edge changes", vt.VForall(func(a, b string) bool {
		return vEdge(g, a, b) == vt.VOld(func() bool { return vEdge(g, a, b) })
	}))
}

//vc:contract (*MapGraph[string]).GetNode
//vc:props C20
//vc:top
func vcGetNode(g *MapGraph[string], id string, node Option[string]) {
	vt.VRequires("sound", g != nil && vGraphInv(g))
	vt.VEnsures("a node is found exactly when set", !node.empty == vNode(g, id))
	vt.VEnsures("the latest one", node.empty || node.val == g.nodes[id])
}

//vc:contract (*MapGraph[string]).SetEdge
//vc:props C20
//vc:top
func vcSetEdge(g *MapGraph[string], sourceId, destId string, err error) {
	vt.VRequires("sound", g != nil && vGraphInv(g))
	if vNode(g, sourceId) && vNode(g, destId) {
		vt.VModifies(g.forwardEdges)
		vt.VModifies(g.backwardEdges)
		if vHasF(g, sourceId) {
			vt.VModifies(g.forwardEdges[sourceId])
		}
		if vHasB(g, destId) {
			vt.VModifies(g.backwardEdges[destId])
		}
	}
	vt.VEnsures("refused exactly when an endpoint is missing", (err == nil) == (vNode(g, sourceId) && vNode(g, destId)))
	vt.VEnsures("the graph stays sound", vGraphInv(g))
	vt.VEnsures("exactly this edge is added", vt.VForall(func(a, b string) bool {
		return vEdge(g, a, b) == (vt.VOld(func() bool { return vEdge(g, a, b) }) || err == nil && a == sourceId && b == destId)
	}))
	vt.VEnsures("no node changes", vt.VForall(func(k string) bool {
		return vNode(g, k) == vt.VOld(func() bool { return vNode(g, k) }) && g.nodes[k] == vt.VOld(func() string { return g.nodes[k] })
	}))
}

// vLists: the nodes are those of the ids selected, once each where nodes differ
func vDiffer(g *MapGraph[string]) bool {
	return vt.VForall(func(a, b string) bool { return a == b || !vNode(g, a) || !vNode(g, b) || g.nodes[a] != g.nodes[b] })
}

//vc:contract (*MapGraph[string]).GetSucessors
//vc:props C20
//vc:top
func vcGetSucessors(g *MapGraph[string], id string, nodes []string) {
	vt.VRequires("sound", g != nil && vGraphInv(g))
	vt.VEnsures("every successor is listed", vt.VForall(func(b string) bool {
		return !vEdge(g, id, b) || vt.VExists(func(i int) bool { return 0 <= i && i < len(nodes) && nodes[i] == g.nodes[b] })
	}))
	vt.VEnsures("only successors are listed", vt.VForall(func(i int) bool {
		return !(0 <= i && i < len(nodes)) || vt.VExists(func(b string) bool { return vEdge(g, id, b) && nodes[i] == g.nodes[b] })
	}))
	vt.VEnsures("each is listed once", !vDiffer(g) || vt.VForall(func(i, j int) bool {
		return !(0 <= i && i < j && j < len(nodes)) || nodes[i] != nodes[j]
	}))
}

//vc:contract (*MapGraph[string]).GetAncestors
//vc:props C20
//vc:top
func vcGetAncestors(g *MapGraph[string], id string, nodes []string) {
	vt.VRequires("sound", g != nil && vGraphInv(g))
	vt.VEnsures("every ancestor is listed", vt.VForall(func(b string) bool {
		return !vEdge(g, b, id) || vt.VExists(func(i int) bool { return 0 <= i && i < len(nodes) && nodes[i] == g.nodes[b] })
	}))
	vt.VEnsures("only ancestors are listed", vt.VForall(func(i int) bool {
		return !(0 <= i && i < len(nodes)) || vt.VExists(func(b string) bool { return vEdge(g, b, id) && nodes[i] == g.nodes[b] })
	}))
	vt.VEnsures("each is listed once", !vDiffer(g) || vt.VForall(func(i, j int) bool {
		return !(0 <= i && i < j && j < len(nodes)) || nodes[i] != nodes[j]
	}))
}

// instances of the generic code
func vInstances() { New[string]() }

func vDiEdge(g *MapDiGraph, a, b string) bool {
	_, ok := g.ForwardEdges[a].GetEdges()[b]
	return ok
}

func vDiBack(g *MapDiGraph, a, b string) bool {
	_, ok := g.BackEdges[b].GetEdges()[a]
	return ok
}

func vDiNode(g *MapDiGraph, id string) bool {
	_, ok := g.Nodes[id]
	return ok
}

func vDiHasF(g *MapDiGraph, id string) bool {
	_, ok := g.ForwardEdges[id]
	return ok
}

func vDiHasB(g *MapDiGraph, id string) bool {
	_, ok := g.BackEdges[id]
	return ok
}

// vDiInv: both directions agree and carry the same edge, and the edge maps are not shared
func vDiInv(g *MapDiGraph) bool {
	return g.Nodes != nil && g.ForwardEdges != nil && g.BackEdges != nil &&
		vt.VDistinct(g.ForwardEdges, g.BackEdges) &&
		vt.VForall(func(a string) bool {
			return (!vDiHasF(g, a) || g.ForwardEdges[a] != nil && g.ForwardEdges[a].Edges != nil) && (!vDiHasB(g, a) || g.BackEdges[a] != nil && g.BackEdges[a].Edges != nil)
		}) &&
		vt.VForall(func(a, b string) bool {
			return (a == b || !vDiHasF(g, a) || !vDiHasF(g, b) || vt.VDistinct(g.ForwardEdges[a].Edges, g.ForwardEdges[b].Edges)) &&
				(a == b || !vDiHasB(g, a) || !vDiHasB(g, b) || vt.VDistinct(g.BackEdges[a].Edges, g.BackEdges[b].Edges)) &&
				(!vDiHasF(g, a) || !vDiHasB(g, b) || vt.VDistinct(g.ForwardEdges[a].Edges, g.BackEdges[b].Edges))
		}) &&
		vt.VForall(func(a, b string) bool {
			return vDiEdge(g, a, b) == vDiBack(g, a, b) && g.ForwardEdges[a].GetEdges()[b] == g.BackEdges[b].GetEdges()[a]
		})
}

//vc:contract NewMapDiGraph
//vc:props C20
//vc:top
func vcNewMapDiGraph(g *MapDiGraph) {
	vt.VFresh(g)
	vt.VEnsures("a new graph is sound", g != nil && vDiInv(g))
	vt.VEnsures("a new graph is empty", vt.VForall(func(a, b string) bool {
		return !vDiNode(g, a) && !vDiEdge(g, a, b) && !vDiBack(g, a, b)
	}))
}

//vc:contract (*MapDiGraph).AddNode
//vc:props C20
//vc:top
func vcAddNode(g *MapDiGraph, node *GraphNode) {
	vt.VRequires("sound", g != nil && node != nil && vDiInv(g))
	vt.VModifies(g.Nodes)
	vt.VEnsures("the graph stays sound", vDiInv(g))
	vt.VEnsures("the node is set", vDiNode(g, node.Id) && g.Nodes[node.Id] == node)
	vt.VEnsures("no other node changes", vt.VForall(func(k string) bool {
		return k == node.Id || vDiNode(g, k) == vt.VOld(func() bool { return vDiNode(g, k) }) && g.Nodes[k] == vt.VOld(func() *GraphNode { return g.Nodes[k] })
	}))
	vt.VEnsures("no edge changes", vt.VForall(func(a, b string) bool {
		return vDiEdge(g, a, b) == vt.VOld(func() bool { return vDiEdge(g, a, b) })
	}))
}

//vc:contract (*MapDiGraph).AddEdge
//vc:props C20
//vc:top
func vcAddEdge(g *MapDiGraph, edg *GraphEdge) {
	vt.VRequires("sound", g != nil && edg != nil && vDiInv(g))
	vt.VModifies(g.ForwardEdges)
	vt.VModifies(g.BackEdges)
	if vDiHasF(g, edg.Source) {
		vt.VModifies(g.ForwardEdges[edg.Source].Edges)
	}
	if vDiHasB(g, edg.Dest) {
		vt.VModifies(g.BackEdges[edg.Dest].Edges)
	}
	vt.VEnsures("the graph stays sound", vDiInv(g))
	vt.VEnsures("exactly this edge is added", vt.VForall(func(a, b string) bool {
		return vDiEdge(g, a, b) == (vt.VOld(func() bool { return vDiEdge(g, a, b) }) || a == edg.Source && b == edg.Dest)
	}))
	vt.VEnsures("the edge is the latest one set", vt.VForall(func(a, b string) bool {
		if a == edg.Source && b == edg.Dest {
			return g.ForwardEdges[a].GetEdges()[b] == edg
		}
		return g.ForwardEdges[a].GetEdges()[b] == vt.VOld(func() *GraphEdge { return g.ForwardEdges[a].GetEdges()[b] })
	}))
	vt.VEnsures("no node changes", vt.VForall(func(k string) bool {
		return vDiNode(g, k) == vt.VOld(func() bool { return vDiNode(g, k) }) && g.Nodes[k] == vt.VOld(func() *GraphNode { return g.Nodes[k] })
	}))
}

//vc:contract (*MapDiGraph).GetNode
//vc:props C20
//vc:top
func vcDiGetNode(g *MapDiGraph, id string, node *GraphNode) {
	vt.VRequires("sound", g != nil && vDiInv(g))
	vt.VEnsures("the latest node set", node == g.Nodes[id])
}
