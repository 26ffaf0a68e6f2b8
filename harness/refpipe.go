package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// Reference semantics of pipelines: a from-scratch evaluation over the current source objects.

type stage struct {
	op  string
	arg any
}

func isObj(v any) (map[string]any, bool) { x, ok := v.(map[string]any); return x, ok }

// refPipe evaluates the stages over the sources (kind -> documents). The result are the stamped
// documents by object key.
func refPipe(stages []stage, kinds []string, src map[string][]map[string]any, apiVersion, kind string) (map[string][]map[string]any, error) {
	docs, err := refStages(stages, kinds, src)
	if err != nil {
		return nil, err
	}
	out := map[string][]map[string]any{}
	for _, d := range docs {
		d = copyMap(d)
		meta, ok := isObj(d["metadata"])
		if !ok {
			return nil, rerr("no metadata")
		}
		ns := ""
		if v, ok := meta["namespace"]; ok {
			s, ok := v.(string)
			if !ok {
				return nil, rerr("bad namespace")
			}
			ns = s
		}
		name, ok := meta["name"].(string)
		if !ok || name == "" {
			return nil, rerr("bad name")
		}
		if ns == "" {
			delete(meta, "namespace")
		}
		d["apiVersion"], d["kind"] = apiVersion, kind
		key := ns + "/" + name
		out[key] = append(out[key], d)
	}
	return out, nil
}

func refStages(stages []stage, kinds []string, src map[string][]map[string]any) ([]map[string]any, error) {
	var docs []map[string]any
	if len(stages) > 0 && stages[0].op == "@join" {
		combos := []map[string]any{{}}
		for _, kd := range kinds {
			var next []map[string]any
			for _, c := range combos {
				for _, d := range src[kd] {
					n := map[string]any{kd: d}
					for a, b := range c {
						n[a] = b
					}
					next = append(next, n)
				}
			}
			combos = next
		}
		for _, c := range combos {
			v, err := refEval(stages[0].arg, refCtx{obj: c})
			if err != nil {
				return nil, err
			}
			b, err := refBool(v)
			if err != nil {
				return nil, err
			}
			if b {
				docs = append(docs, c)
			}
		}
		stages = stages[1:]
	} else {
		docs = append(docs, src[kinds[0]]...)
	}
	for _, s := range stages {
		var next []map[string]any
		switch s.op {
		case "@select":
			for _, d := range docs {
				v, err := refEval(s.arg, refCtx{obj: d})
				if err != nil {
					return nil, err
				}
				b, err := refBool(v)
				if err != nil {
					return nil, err
				}
				if b {
					next = append(next, d)
				}
			}
		case "@project":
			for _, d := range docs {
				v, err := refEval(s.arg, refCtx{obj: d})
				if err != nil {
					return nil, err
				}
				var acc any
				if l, ok := v.([]any); ok {
					for _, x := range l {
						if _, ok := isObj(x); !ok {
							return nil, rerr("project: not an object")
						}
						if acc, err = refMerge(acc, x); err != nil {
							return nil, err
						}
					}
				} else {
					acc = v
				}
				o, ok := isObj(acc)
				if !ok {
					return nil, rerr("project: not an object")
				}
				if _, err := json.Marshal(o); err != nil {
					return nil, errUnspec // NaN and infinity
				}
				next = append(next, copyMap(o))
			}
		case "@unwind":
			p := s.arg.(string)
			for _, d := range docs {
				nv, err := refGet("$.metadata.name", refCtx{obj: d})
				if err != nil {
					return nil, err
				}
				name, ok := nv.(string)
				if !ok || name == "" {
					return nil, rerr("unwind: no name")
				}
				v, err := refEval(p, refCtx{obj: d})
				if err != nil {
					return nil, err
				}
				if v == nil {
					continue
				}
				l, ok := v.([]any)
				if !ok {
					return nil, rerr("unwind: not a list")
				}
				for i, x := range l {
					n := copyMap(d)
					if err := refSet(n, p, x); err != nil {
						return nil, err
					}
					m, ok := isObj(n["metadata"])
					if !ok {
						return nil, rerr("unwind: metadata")
					}
					m["name"] = fmt.Sprintf("%v-%d", m["name"], i)
					next = append(next, n)
				}
			}
		case "@gather":
			args := s.arg.([]any)
			type grp struct {
				rep    map[string]any
				values []any
			}
			groups := map[string]*grp{}
			sorted := append([]map[string]any{}, docs...)
			sort.SliceStable(sorted, func(i, j int) bool { return canon(sorted[i]) < canon(sorted[j]) })
			for _, d := range sorted {
				kv, err := refEval(args[0], refCtx{obj: d})
				if err != nil {
					return nil, err
				}
				if kv == nil {
					continue
				}
				vv, err := refEval(args[1], refCtx{obj: d})
				if err != nil {
					return nil, err
				}
				if vv == nil {
					continue
				}
				ck := canon(kv)
				if groups[ck] == nil {
					groups[ck] = &grp{rep: d}
				}
				groups[ck].values = append(groups[ck].values, vv)
			}
			for _, ck := range sortedKeys(groups) {
				g := groups[ck]
				n := copyMap(g.rep)
				if err := refSet(n, args[1].(string), g.values); err != nil {
					return nil, err
				}
				next = append(next, n)
			}
		default:
			panic("unknown stage " + s.op)
		}
		docs = next
	}
	return docs, nil
}

// normLists sorts all lists (recursively) by their JSON form.
func normLists(v any) any {
	switch x := v.(type) {
	case map[string]any:
		n := map[string]any{}
		for k, y := range x {
			n[k] = normLists(y)
		}
		return n
	case []any:
		n := make([]any, len(x))
		for i, y := range x {
			n[i] = normLists(y)
		}
		sort.SliceStable(n, func(i, j int) bool { return canon(n[i]) < canon(n[j]) })
		return n
	}
	return v
}

func stagesJSON(st []stage) string {
	ps := []string{}
	for _, s := range st {
		ps = append(ps, fmt.Sprintf("{%q:%s}", s.op, exprJSON(s.arg)))
	}
	return "[" + strings.Join(ps, ",") + "]"
}
