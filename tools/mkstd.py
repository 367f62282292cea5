#!/usr/bin/env python3
"""Writes sim/simrt/std.go: standard library functions that charge their caller
for the work they do, and the table of them for cmd/instrument."""
import os
out = ['''// Code generated by tools/mkstd.py. DO NOT EDIT.

package simrt

import (
	"bytes"
	"reflect"
	"slices"
	"sort"
	"strings"
	"unicode/utf8"
)

// charge adds the cost of n bytes or elements looked at inside the standard
// library, where no statement is counted.
//
//go:norace
func charge(n int) {
	t := cur
	if t == nil || n < 16 {
		return
	}
	t.Steps += int64(n / 4)
	t.quantum -= int64(n / 4)
}

func found(i, n int) int {
	if i < 0 {
		return n
	}
	return i
}

func before(i, n int) int {
	if i < 0 {
		return n
	}
	return n - i
}

// Copy is the builtin.
func Copy[D ~[]T, S ~[]T, T any](d D, s S) int {
	n := copy(d, s)
	charge(n)
	return n
}

// CopyStr is the builtin.
func CopyStr[D ~[]byte, S ~string](d D, s S) int {
	n := copy(d, s)
	charge(n)
	return n
}

// Spread is charged for what is appended.
func Spread[S ~[]T, T any](s S) S { charge(len(s)); return s }

// SpreadStr is charged for what is appended.
func SpreadStr[S ~string](s S) S { charge(len(s)); return s }

// Concat is charged for a += b, and returns b.
func Concat[S ~string](a, b S) S { charge(len(a) + len(b)); return b }
''']
table = []
def fn(pkg, name, params, result, charge, args=None):
    """charge is an expression over the parameters and r."""
    w = pkg.split('/')[-1].capitalize() + name
    gen = ''
    if isinstance(params, tuple):
        gen, params = params
    if args is None:
        args = ', '.join(p.split()[0] for p in params.replace('(int, int)', '').replace('(E, E)', '').split(', '))
    p = pkg.split('/')[-1]
    if result == '':
        body = f'{p}.{name}({args}); charge({charge})'
    elif result.startswith('('):
        names = ', '.join(x.split()[0] for x in result[1:-1].split(', '))
        body = f'{names} = {p}.{name}({args}); charge({charge}); return'
    else:
        body = f'r := {p}.{name}({args}); charge({charge}); return r'
    out.append(f'func {w}{gen}({params}) {result} {{ {body} }}\n')
    table.append(f'{pkg}.{name}')

for pkg, T, L in (('strings', 'string', '[]string'), ('bytes', '[]byte', '[][]byte')):
    F = 'func(rune) bool'
    n = 'len(s)'
    for a, p in (('', f't {T}'), ('Any', 't string'), ('Func', f't {F}'), ('Rune', 't rune')):
        fn(pkg, 'Contains' + a, f's {T}, {p}', 'bool', f'found({pkg}.Index{a}(s, t), {n})' if a != 'Func' else n)
    for a, p in (('', f't {T}'), ('Any', 't string'), ('Func', f't {F}'), ('Rune', 't rune'), ('Byte', 't byte')):
        fn(pkg, 'Index' + a, f's {T}, {p}', 'int', f'found(r, {n})')
        if a != 'Rune':
            fn(pkg, 'LastIndex' + a, f's {T}, {p}', 'int', f'before(r, {n})')
    fn(pkg, 'Count', f's {T}, t {T}', 'int', n)
    fn(pkg, 'Compare', f's {T}, t {T}', 'int', 'min(len(s), len(t))')
    fn(pkg, 'EqualFold', f's {T}, t {T}', 'bool', 'min(len(s), len(t))')
    fn(pkg, 'Cut', f's {T}, t {T}', f'(a {T}, b {T}, ok bool)', 'len(a)')
    fn(pkg, 'HasPrefix', f's {T}, t {T}', 'bool', 'len(t)')
    fn(pkg, 'HasSuffix', f's {T}, t {T}', 'bool', 'len(t)')
    fn(pkg, 'Fields', f's {T}', L, n)
    fn(pkg, 'FieldsFunc', f's {T}, f {F}', L, n)
    fn(pkg, 'Join', f's {L}, t {T if pkg == "bytes" else "string"}', T, 'len(r)')
    fn(pkg, 'Map', f'f func(rune) rune, s {T}', T, n)
    fn(pkg, 'Repeat', f's {T}, k int', T, 'len(r)')
    fn(pkg, 'Replace', f's {T}, t {T}, u {T}, k int', T, n)
    fn(pkg, 'ReplaceAll', f's {T}, t {T}, u {T}', T, n)
    fn(pkg, 'Split', f's {T}, t {T}', L, n)
    fn(pkg, 'SplitAfter', f's {T}, t {T}', L, n)
    for x in ('SplitN', 'SplitAfterN'):
        out.append(f'func {pkg.capitalize()}{x}(s {T}, t {T}, k int) {L} {{\n\tr := {pkg}.{x}(s, t, k)\n\tn := len(s)\n\tif k > 0 && len(r) == k {{\n\t\tn -= len(r[k-1])\n\t}}\n\tcharge(n)\n\treturn r\n}}\n')
        table.append(f'{pkg}.{x}')
    for x in ('Title', 'ToLower', 'ToUpper', 'ToTitle'):
        fn(pkg, x, f's {T}', T, n)
    fn(pkg, 'ToValidUTF8', f's {T}, t {T}', T, n)
    fn(pkg, 'Clone', f's {T}', T, n)
    for x, p in (('Trim', 't string'), ('TrimLeft', 't string'), ('TrimRight', 't string'), ('TrimFunc', f't {F}'), ('TrimLeftFunc', f't {F}'), ('TrimRightFunc', f't {F}')):
        fn(pkg, x, f's {T}, {p}', T, 'len(s) - len(r)')
    fn(pkg, 'TrimSpace', f's {T}', T, 'len(s) - len(r)')
fn('bytes', 'Equal', 's []byte, t []byte', 'bool', 'min(len(s), len(t))')
fn('bytes', 'Runes', 's []byte', '[]rune', 'len(s)')
u = 'unicode/utf8'
fn(u, 'RuneCount', 's []byte', 'int', 'len(s)')
fn(u, 'RuneCountInString', 's string', 'int', 'len(s)')
fn(u, 'Valid', 's []byte', 'bool', 'len(s)')
fn(u, 'ValidString', 's string', 'bool', 'len(s)')
rl = 'reflect.ValueOf(s).Len()'
fn('sort', 'Slice', 's any, f func(int, int) bool', '', '4 * '+rl)
fn('sort', 'SliceStable', 's any, f func(int, int) bool', '', '4 * '+rl)
fn('sort', 'SliceIsSorted', 's any, f func(int, int) bool', 'bool', rl)
fn('sort', 'Strings', 's []string', '', '4 * len(s)')
fn('sort', 'Ints', 's []int', '', '4 * len(s)')
fn('sort', 'Sort', 's sort.Interface', '', '4 * s.Len()')
fn('sort', 'Stable', 's sort.Interface', '', '4 * s.Len()')
fn('sort', 'IsSorted', 's sort.Interface', 'bool', 's.Len()')
C = '[S ~[]E, E comparable]'
A = '[S ~[]E, E any]'
O = '[S ~[]E, E interface{ ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~string }]'
fn('slices', 'Contains', (C, 's S, t E'), 'bool', 'found(slices.Index(s, t), len(s))')
fn('slices', 'ContainsFunc', (A, 's S, t func(E) bool'), 'bool', 'len(s)')
fn('slices', 'Index', (C, 's S, t E'), 'int', 'found(r, len(s))')
fn('slices', 'IndexFunc', (A, 's S, t func(E) bool'), 'int', 'found(r, len(s))')
fn('slices', 'Insert', (A, 's S, i int, v ...E'), 'S', 'len(r) - i', args='s, i, v...')
fn('slices', 'Delete', (A, 's S, i int, j int'), 'S', 'len(s) - i')
fn('slices', 'Reverse', (A, 's S'), '', 'len(s)')
fn('slices', 'Clone', (A, 's S'), 'S', 'len(s)')
fn('slices', 'Equal', (C, 's S, t S'), 'bool', 'min(len(s), len(t))')
fn('slices', 'Sort', (O, 's S'), '', '4 * len(s)')
fn('slices', 'SortFunc', (A, 's S, f func(E, E) int'), '', '4 * len(s)')
fn('slices', 'SortStableFunc', (A, 's S, f func(E, E) int'), '', '4 * len(s)')
fn('slices', 'Max', (O, 's S'), 'E', 'len(s)')
fn('slices', 'Min', (O, 's S'), 'E', 'len(s)')
out.append('''
// Charged lists the functions that have a charging counterpart.
var Charged = []string{
''' + ''.join(f'\t"{t}",\n' for t in table) + '}\n')
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '../sim/simrt/std.go')
open(p, 'w').write('\n'.join(out))
os.system('gofmt -w ' + p)
