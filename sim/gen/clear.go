package main

import (
	"go/ast"
	"go/token"
	"reflect"
)

// clearPos removes all positions, so that the printer lays the code out itself;
// positions that carry meaning (as booleans) are kept.
func clearPos(n ast.Node) {
	seen := map[uintptr]bool{}
	posT := reflect.TypeOf(token.Pos(0))
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			switch v.Interface().(type) {
			case *ast.Object, *ast.Scope:
				return
			case *ast.CommentGroup:
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			t := v.Type()
			for i := 0; i < t.NumField(); i++ {
				f := v.Field(i)
				if t.Field(i).Type == posT {
					switch t.Field(i).Name {
					case "Ellipsis", "Assign", "Lparen", "Arrow", "TokPos":
						if t.Field(i).Name == "TokPos" || (t.Field(i).Name == "Lparen" && t.Name() != "GenDecl") {
							f.SetInt(0)
						} else if f.Int() != 0 {
							f.SetInt(1)
						}
					default:
						f.SetInt(0)
					}
					continue
				}
				switch t.Field(i).Name {
				case "Doc", "Comment":
					f.Set(reflect.Zero(f.Type()))
					continue
				}
				walk(f)
			}
		}
	}
	walk(reflect.ValueOf(n))
}
