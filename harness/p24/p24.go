package p24

import (
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/zzverif/v"
)

type entry struct {
	path string
	node *astTraversal.PackageNode
}

func path(id string) string {
	n := 1 + v.Choose(id+".n", 3)
	p := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			p += "/"
		}
		max := 1
		if i == 0 || v.Thorough() {
			max = 2
		}
		p += v.StringUpTo(id+"."+string(rune('0'+i)), 1, max, "aA.")
	}
	return p
}

func find(es []entry, p string) *entry {
	for i := range es {
		if es[i].path == p {
			return &es[i]
		}
	}
	return nil
}

// known nodes: every path added and every prefix of one, filled in as nodes are seen.
type model struct{ es []entry }

func (m *model) add(p string, n *astTraversal.PackageNode) {
	for i := 0; i < len(p); i++ {
		if p[i] == '/' {
			if find(m.es, p[:i]) == nil {
				m.es = append(m.es, entry{p[:i], nil})
			}
		}
	}
	if e := find(m.es, p); e != nil {
		if e.node != nil {
			v.Assert("same node", e.node == n, "one path has two nodes")
		}
		e.node = n
	} else {
		m.es = append(m.es, entry{p, n})
	}
	for _, e := range m.es {
		if e.path != p && e.node != nil {
			v.Assert("distinct nodes", e.node != n, "two paths share a node")
		}
	}
}

// H_Tree: any sequence of additions and searches.
func H_Tree() {
	pm := astTraversal.NewPackageManager("")
	m := &model{}
	ops := 3
	for i := 0; i < ops; i++ {
		id := "op" + string(rune('0'+i))
		p := path(id)
		kind := 0
		if i == ops-1 {
			kind = v.Choose(id+".kind", 3)
		} else {
			kind = v.Choose(id+".kind", 2)
		}
		switch kind {
		case 0:
			n := pm.AddPackage(p)
			v.Assert("node", n != nil, "no node")
			v.Assert("path", n.Path() == p, "the node's path is not the path added")
			m.add(p, n)
		case 1:
			n := pm.FindOrAdd(p)
			v.Assert("node", n != nil, "no node")
			v.Assert("path", n.Path() == p, "the node's path is not the path added")
			m.add(p, n)
		case 2:
			n := pm.Find(p)
			e := find(m.es, p)
			v.Assert("found", (n != nil) == (e != nil), "found although not added, or the reverse")
			if n != nil && e != nil {
				v.Assert("path", n.Path() == p, "the node's path is not the path searched")
				if e.node != nil {
					v.Assert("same node", e.node == n, "one path has two nodes")
				}
			}
			v.Assert("finding adds nothing", (pm.Find(p) != nil) == (n != nil), "a search changed the tree")
		}
		if i == ops-1 {
			v.Observe("n", len(m.es))
		}
	}
	for _, e := range m.es {
		n := pm.Find(e.path)
		v.Assert("still there", n != nil, "an added path is not found")
		if n != nil && e.node != nil {
			v.Assert("same node", e.node == n, "one path has two nodes")
		}
	}
}

// H_Names: two paths of two elements, one of them longer.
func H_Names() {
	n := 10
	if v.Thorough() {
		n = 20
	}
	p := []string{"a", "b", "c"}
	p[v.Choose("element", 3)] = v.StringUpTo("name", 1, n, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~")
	a, b := p[0]+"/"+p[1]+"/"+p[2], p[1]+"/"+p[2]
	v.Assume(a != b)
	pm := astTraversal.NewPackageManager("")
	m := &model{}
	x := pm.AddPackage(a)
	m.add(a, x)
	v.Assert("path", x.Path() == a, "the node's path is not the path added")
	v.Assert("not found", pm.Find(b) == nil || b == p[0] || b == p[0]+"/"+p[1], "found although not added")
	y := pm.FindOrAdd(b)
	m.add(b, y)
	v.Assert("path", y.Path() == b, "the node's path is not the path added")
	v.Assert("still there", pm.Find(a) == x && pm.Find(b) == y, "an added path is not found")
}
