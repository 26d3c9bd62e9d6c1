package kv_store

import (
	"context"

	"github.com/sourcenetwork/zanzi/internal/relation_graph"
	vt "github.com/sourcenetwork/zanzi/internal/utils"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

func vNodeRepoOK(r *nodeRepository) bool { return r != nil && vKvOK(r.kvStore) }

//vc:contract newNodeRepository
//vc:props C17
//vc:top
func vcNewNodeRepository(store *KVStore, out nodeRepository) {
	vt.VEnsures("C17: reads the given store", out.kvStore == store)
}

// vNodeIn: the node the stored end of an edge stands for
func vNodeIn(n *RelationNode) domain.VNode {
	return domain.VNode{vTypeKind(n.Type), n.Resource, n.Id, n.Relation}
}

//vc:contract (*nodeRepository).GetSucessors
//vc:props C01 C05 C09 C17
//vc:top
func vcNodeSucessors(r *nodeRepository, ctx context.Context, pid string, node *domain.EntitySetNode, nodes []*domain.RelationNode, err error) {
	vt.VRequires("repository", vNodeRepoOK(r) && vRep())
	relation_graph.VsGetSucessors(pid, node, nodes, err)
}

//vc:contract (*nodeRepository).ListEdges
//vc:props C05 C09 C17
//vc:top
func vcNodeListEdges(r *nodeRepository, ctx context.Context, pid string, pairs []types.Pair[*domain.RelationNode, *domain.RelationNode], err error) {
	vt.VRequires("repository", vNodeRepoOK(r) && vRep())
	relation_graph.VsListEdges(pid, pairs, err)
}
