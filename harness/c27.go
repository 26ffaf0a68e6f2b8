package main

import (
	"encoding/json"
	"fmt"
	"html"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"sigs.k8s.io/yaml"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/visualize"
)

func init() { checks["C27"] = checkC27 }

func checkC27(c *Ctx) {
	c.Rule("the diagrams of random operators (0-8 controllers over a few shared views and native resources, several producers and consumers of the same view, views written or read by nobody, cycles, all source and target types) are generated in both formats, directly and with dctl, parsed back and compared with the resources the specification reads and writes. Non-trivial: diagrams with at least one controller that reads the output of another, distinct by specification.")
	c.Assume("controllers have unique names; a resource is identified by its group, version and kind as written in the specification; colours and layout are not judged")
	c.Section("diagrams", c.N(6000, 200000), 8, c27diagram)
	c.Section("command line", c.N(80, 1500), 8, c27cli)
}

type flow struct{ from, to, label string }

// c27spec makes an operator and lists the nodes and edges its diagram must have.
func c27spec(k *K) (map[string]any, map[string]bool, map[flow]bool, bool) {
	r := k.R
	type res struct {
		ref  map[string]any
		node string
	}
	pool := []res{
		{m{"kind": "HealthView"}, "HealthView"},
		{m{"kind": "PodView"}, "PodView"},
		{m{"kind": "Plain"}, "Plain"},
		{m{"kind": "plain"}, "plain"},
		{m{"kind": "Other", "apiGroup": "other.view.dcontroller.io"}, "other.view.dcontroller.io/Other"},
		{m{"kind": "Other", "apiGroup": "third.view.dcontroller.io"}, "third.view.dcontroller.io/Other"},
		{m{"kind": "Other", "apiGroup": "other.view.dcontroller.io", "version": "v1alpha1"}, "other.view.dcontroller.io/v1alpha1/Other"},
		{m{"kind": "Pod", "apiGroup": "", "version": "v1"}, "v1/Pod"},
		{m{"kind": "Service", "apiGroup": "", "version": "v1"}, "v1/Service"},
		{m{"kind": "Deployment", "apiGroup": "apps", "version": "v1"}, "apps/v1/Deployment"},
		{m{"kind": "Deployment", "apiGroup": "apps", "version": "v1beta1"}, "apps/v1beta1/Deployment"},
		{m{"kind": "View", "apiGroup": "x.io", "version": "v2"}, "x.io/v2/View"},
	}
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	pool = pool[:1+r.Intn(6)]
	nodes, edges := map[string]bool{}, map[flow]bool{}
	ctrls := []any{}
	written := map[string]bool{}
	read := map[string]bool{}
	names := []string{"a", "ctrl-1", "b c", "x.y", "<p>", "é", "ctrl-10", "last&"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for i := 0; i < r.Intn(9); i++ {
		name := names[i]
		label := name
		ops := []any{}
		var stages []string
		for j := []int{0, 1, 2, 3, 4, 12}[r.Intn(6)]; j > 0; j-- {
			st := []any{m{"@select": true}, m{"@project": m{"metadata": "$.metadata"}}, m{"@unwind": "$.spec.l"}, m{"@gather": l{"$.a", "$.b"}}}[r.Intn(4)].(map[string]any)
			ops = append(ops, st)
			stages = append(stages, sortedKeys(st)[0])
		}
		if r.Intn(3) == 0 {
			ops = append([]any{m{"@join": true}}, ops...)
			stages = append([]string{"@join"}, stages...)
		}
		if len(stages) > 0 {
			label += ": " + strings.Join(stages, " -> ")
		}
		nodes[label] = true
		srcs := []any{}
		for j := 1 + r.Intn(3); j > 0; j-- {
			x := pool[r.Intn(len(pool))]
			s := copyMap(x.ref)
			t := "Watcher"
			if r.Intn(2) == 0 {
				t = []string{"Watcher", "Periodic", "OneShot"}[r.Intn(3)]
				s["type"] = t
			}
			if r.Intn(5) == 0 {
				s["namespace"] = "ns"
			}
			srcs = append(srcs, s)
			nodes[x.node] = true
			read[x.node] = true
			edges[flow{x.node, label, t}] = true
		}
		x := pool[r.Intn(len(pool))]
		tg := copyMap(x.ref)
		t := "Updater"
		if r.Intn(2) == 0 {
			t = []string{"Updater", "Patcher"}[r.Intn(2)]
			tg["type"] = t
		}
		nodes[x.node] = true
		written[x.node] = true
		edges[flow{label, x.node, t}] = true
		var pl any = ops
		if len(ops) == 1 && r.Intn(2) == 0 {
			pl = ops
		}
		ctrls = append(ctrls, m{"name": name, "sources": srcs, "pipeline": pl, "target": tg})
	}
	chained := false
	for n := range read {
		chained = chained || written[n]
	}
	return m{"controllers": ctrls}, nodes, edges, chained
}

var (
	dotNode  = regexp.MustCompile(`^(n\d+)\[(.*)\];$`)
	dotEdge  = regexp.MustCompile(`^(n\d+)->(n\d+)\[(.*)\];$`)
	dotLabel = regexp.MustCompile(`label="((?:[^"\\]|\\.)*)"`)
	mmNode   = regexp.MustCompile(`^(n\d+)[^\w"]+"(.*)"[^\w"]+;$`)
	mmEdge   = regexp.MustCompile(`^(n\d+)-->(?:\|"(.*)"\|)?(n\d+);$`)
)

// parseDiagram reads back a diagram.
func parseDiagram(k *K, text, format string) (map[string]int, map[flow]int, string) {
	ids := map[string]string{}
	type ed struct{ a, b, l string }
	var es []ed
	title := ""
	lab := func(attrs string) string {
		x := dotLabel.FindStringSubmatch(attrs)
		if x == nil {
			return ""
		}
		return strings.ReplaceAll(strings.ReplaceAll(x[1], `\"`, `"`), `\\`, `\`)
	}
	if format == "dot" {
		k.Check(strings.HasPrefix(strings.TrimSpace(text), "digraph"), "not a directed DOT graph: %s", text)
	} else {
		t := strings.TrimSpace(text)
		k.Check(strings.HasPrefix(t, "```mermaid\nflowchart") && strings.HasSuffix(t, "```"), "not a Mermaid flowchart: %s", text)
	}
	for _, ln := range strings.Split(text, "\n") {
		ln = strings.TrimSpace(ln)
		if format == "dot" {
			if x := dotEdge.FindStringSubmatch(ln); x != nil {
				es = append(es, ed{x[1], x[2], lab(x[3])})
			} else if x := dotNode.FindStringSubmatch(ln); x != nil {
				ids[x[1]] = lab(x[2])
			} else if strings.Contains(ln, "label=") {
				title = lab(ln)
			}
		} else {
			if x := mmEdge.FindStringSubmatch(ln); x != nil {
				es = append(es, ed{x[1], x[3], html.UnescapeString(x[2])})
			} else if x := mmNode.FindStringSubmatch(ln); x != nil {
				ids[x[1]] = html.UnescapeString(x[2])
			}
		}
	}
	nodes, edges := map[string]int{}, map[flow]int{}
	for _, n := range ids {
		nodes[n]++
	}
	for _, e := range es {
		_, ok1 := ids[e.a]
		_, ok2 := ids[e.b]
		k.Check(ok1 && ok2, "edge between unknown nodes %s and %s: %s", e.a, e.b, text)
		edges[flow{ids[e.a], ids[e.b], e.l}]++
	}
	return nodes, edges, title
}

func judgeDiagram(k *K, text, format, title string, spec any, nodes map[string]bool, edges map[flow]bool) {
	gn, ge, gt := parseDiagram(k, text, format)
	what := fmt.Sprintf("%s diagram of %s", format, canon(spec))
	for n := range nodes {
		k.Check(gn[n] > 0, "%s lacks %q", what, n)
		k.Check(gn[n] == 1, "%s shows %q %d times", what, n, gn[n])
	}
	for n := range gn {
		k.Check(nodes[n], "%s shows %q, which is not in the operator", what, n)
	}
	var miss []string
	for e := range edges {
		if ge[e] == 0 {
			miss = append(miss, fmt.Sprintf("%q -> %q (%s)", e.from, e.to, e.label))
		}
	}
	sort.Strings(miss)
	k.Check(len(miss) == 0, "%s lacks %s", what, strings.Join(miss, ", "))
	for e := range ge {
		k.Check(edges[e], "%s shows %q -> %q (%s), which is not in the operator", what, e.from, e.to, e.label)
	}
	if format == "dot" {
		k.Check(gt == title, "%s is titled %q instead of %q", what, gt, title)
	}
	k.Count("diagrams", 1)
	k.Count("edges", len(ge))
}

func c27diagram(k *K) {
	spec, nodes, edges, chained := c27spec(k)
	var s opv1a1.OperatorSpec
	k.Check(json.Unmarshal([]byte(canon(spec)), &s) == nil, "valid specification rejected: %s", canon(spec))
	op := &opv1a1.Operator{Spec: s}
	op.Name = []string{"op", "my-op", "op.with.dots"}[k.R.Intn(3)]
	before := canonText(op)
	var mer, dot string
	k.Protect("drawing", func() {
		g := visualize.BuildGraph(op)
		dot = (&visualize.DotGenerator{}).Generate(g)
		mer = (&visualize.MermaidGenerator{}).Generate(g)
		for i := 0; i < 3; i++ {
			k.Check((&visualize.DotGenerator{}).Generate(visualize.BuildGraph(op)) == dot, "the diagram differs from time to time: %s", canon(spec))
		}
	})
	judgeDiagram(k, dot, "dot", op.Name, spec, nodes, edges)
	judgeDiagram(k, mer, "mermaid", "", spec, nodes, edges)
	k.Check(canonText(op) == before, "drawing modified the operator")
	if chained {
		k.Nontrivial("%s", canon(spec))
	}
}

func canonText(v any) string { b, _ := json.Marshal(v); return string(b) }

// c27cli draws with dctl.
func c27cli(k *K) {
	r := k.R
	spec, nodes, edges, chained := c27spec(k)
	dir, err := os.MkdirTemp("", "c27-")
	k.Check(err == nil, "tmp: %v", err)
	defer os.RemoveAll(dir)
	sub := []string{"", "sub/"}[r.Intn(2)]
	k.Check(os.MkdirAll(filepath.Join(dir, "sub"), 0o755) == nil, "mkdir")
	base := []string{"op", "my.op", "x"}[r.Intn(3)]
	file := sub + base + []string{".yaml", ".yml"}[r.Intn(2)]
	var doc any = spec
	title := base
	if r.Intn(2) == 0 {
		title = "named"
		doc = m{"apiVersion": "dcontroller.io/v1alpha1", "kind": "Operator", "metadata": m{"name": "named"}, "spec": spec}
	}
	b := []byte(canon(doc))
	if r.Intn(2) == 0 {
		b, err = yaml.JSONToYAML(b)
		k.Check(err == nil, "yaml: %v", err)
	}
	k.Check(os.WriteFile(filepath.Join(dir, file), b, 0o644) == nil, "write")
	args := []string{"visualize", file}
	format := "mermaid"
	switch r.Intn(6) {
	case 0:
		args = append(args, "--format=mermaid")
	case 1, 2:
		format = "dot"
		args = append(args, "--format=dot")
	case 3:
		format = "dot"
		args = append(args, "-f", []string{"graphviz", "DOT"}[r.Intn(2)])
	case 4:
		o := k.dctl(dir, nil, append(args, "--format=png")...)
		k.Check(o.Code != 0, "an unknown format was accepted: %s", o.Out)
		o = k.dctl(dir, nil, "visualize", file+"x")
		k.Check(o.Code != 0, "a missing file was accepted: %s", o.Out)
		k.Count("rejected command lines", 2)
		return
	}
	text := ""
	if r.Intn(2) == 0 {
		o := k.dctl(dir, nil, append(args, "--output=out.txt")...)
		k.Check(o.Code == 0, "%v failed: %s %s", args, o.Out, o.Err)
		b, err := os.ReadFile(filepath.Join(dir, "out.txt"))
		k.Check(err == nil && o.Out == "", "%v: no output file (%v) or output on stdout: %s", args, err, o.Out)
		text = string(b)
	} else {
		o := k.dctl(dir, nil, args...)
		k.Check(o.Code == 0, "%v failed: %s %s", args, o.Out, o.Err)
		text = o.Out
	}
	judgeDiagram(k, text, format, title, doc, nodes, edges)
	if chained {
		k.Nontrivial("cli %s", canon(spec))
	}
}
