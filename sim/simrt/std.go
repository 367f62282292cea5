// Code generated by tools/mkstd.py. DO NOT EDIT.

package simrt

import (
	"bytes"
	"reflect"
	"slices"
	"sort"
	"strings"
	"unicode/utf8"
)

// charge adds the cost of n bytes or elements looked at inside the standard
// library, where no statement is counted.
//
//go:norace
func charge(n int) {
	t := cur
	if t == nil || n < 16 {
		return
	}
	t.Steps += int64(n / 4)
	t.quantum -= int64(n / 4)
}

func found(i, n int) int {
	if i < 0 {
		return n
	}
	return i
}

func before(i, n int) int {
	if i < 0 {
		return n
	}
	return n - i
}

// Copy is the builtin.
func Copy[D ~[]T, S ~[]T, T any](d D, s S) int {
	n := copy(d, s)
	charge(n)
	return n
}

// CopyStr is the builtin.
func CopyStr[D ~[]byte, S ~string](d D, s S) int {
	n := copy(d, s)
	charge(n)
	return n
}

// Spread is charged for what is appended.
func Spread[S ~[]T, T any](s S) S { charge(len(s)); return s }

// SpreadStr is charged for what is appended.
func SpreadStr[S ~string](s S) S { charge(len(s)); return s }

// Concat is charged for a += b, and returns b.
func Concat[S ~string](a, b S) S { charge(len(a) + len(b)); return b }

func StringsContains(s string, t string) bool {
	r := strings.Contains(s, t)
	charge(found(strings.Index(s, t), len(s)))
	return r
}

func StringsContainsAny(s string, t string) bool {
	r := strings.ContainsAny(s, t)
	charge(found(strings.IndexAny(s, t), len(s)))
	return r
}

func StringsContainsFunc(s string, t func(rune) bool) bool {
	r := strings.ContainsFunc(s, t)
	charge(len(s))
	return r
}

func StringsContainsRune(s string, t rune) bool {
	r := strings.ContainsRune(s, t)
	charge(found(strings.IndexRune(s, t), len(s)))
	return r
}

func StringsIndex(s string, t string) int {
	r := strings.Index(s, t)
	charge(found(r, len(s)))
	return r
}

func StringsLastIndex(s string, t string) int {
	r := strings.LastIndex(s, t)
	charge(before(r, len(s)))
	return r
}

func StringsIndexAny(s string, t string) int {
	r := strings.IndexAny(s, t)
	charge(found(r, len(s)))
	return r
}

func StringsLastIndexAny(s string, t string) int {
	r := strings.LastIndexAny(s, t)
	charge(before(r, len(s)))
	return r
}

func StringsIndexFunc(s string, t func(rune) bool) int {
	r := strings.IndexFunc(s, t)
	charge(found(r, len(s)))
	return r
}

func StringsLastIndexFunc(s string, t func(rune) bool) int {
	r := strings.LastIndexFunc(s, t)
	charge(before(r, len(s)))
	return r
}

func StringsIndexRune(s string, t rune) int {
	r := strings.IndexRune(s, t)
	charge(found(r, len(s)))
	return r
}

func StringsIndexByte(s string, t byte) int {
	r := strings.IndexByte(s, t)
	charge(found(r, len(s)))
	return r
}

func StringsLastIndexByte(s string, t byte) int {
	r := strings.LastIndexByte(s, t)
	charge(before(r, len(s)))
	return r
}

func StringsCount(s string, t string) int { r := strings.Count(s, t); charge(len(s)); return r }

func StringsCompare(s string, t string) int {
	r := strings.Compare(s, t)
	charge(min(len(s), len(t)))
	return r
}

func StringsEqualFold(s string, t string) bool {
	r := strings.EqualFold(s, t)
	charge(min(len(s), len(t)))
	return r
}

func StringsCut(s string, t string) (a string, b string, ok bool) {
	a, b, ok = strings.Cut(s, t)
	charge(len(a))
	return
}

func StringsHasPrefix(s string, t string) bool {
	r := strings.HasPrefix(s, t)
	charge(len(t))
	return r
}

func StringsHasSuffix(s string, t string) bool {
	r := strings.HasSuffix(s, t)
	charge(len(t))
	return r
}

func StringsFields(s string) []string { r := strings.Fields(s); charge(len(s)); return r }

func StringsFieldsFunc(s string, f func(rune) bool) []string {
	r := strings.FieldsFunc(s, f)
	charge(len(s))
	return r
}

func StringsJoin(s []string, t string) string { r := strings.Join(s, t); charge(len(r)); return r }

func StringsMap(f func(rune) rune, s string) string { r := strings.Map(f, s); charge(len(s)); return r }

func StringsRepeat(s string, k int) string { r := strings.Repeat(s, k); charge(len(r)); return r }

func StringsReplace(s string, t string, u string, k int) string {
	r := strings.Replace(s, t, u, k)
	charge(len(s))
	return r
}

func StringsReplaceAll(s string, t string, u string) string {
	r := strings.ReplaceAll(s, t, u)
	charge(len(s))
	return r
}

func StringsSplit(s string, t string) []string { r := strings.Split(s, t); charge(len(s)); return r }

func StringsSplitAfter(s string, t string) []string {
	r := strings.SplitAfter(s, t)
	charge(len(s))
	return r
}

func StringsSplitN(s string, t string, k int) []string {
	r := strings.SplitN(s, t, k)
	n := len(s)
	if k > 0 && len(r) == k {
		n -= len(r[k-1])
	}
	charge(n)
	return r
}

func StringsSplitAfterN(s string, t string, k int) []string {
	r := strings.SplitAfterN(s, t, k)
	n := len(s)
	if k > 0 && len(r) == k {
		n -= len(r[k-1])
	}
	charge(n)
	return r
}

func StringsTitle(s string) string { r := strings.Title(s); charge(len(s)); return r }

func StringsToLower(s string) string { r := strings.ToLower(s); charge(len(s)); return r }

func StringsToUpper(s string) string { r := strings.ToUpper(s); charge(len(s)); return r }

func StringsToTitle(s string) string { r := strings.ToTitle(s); charge(len(s)); return r }

func StringsToValidUTF8(s string, t string) string {
	r := strings.ToValidUTF8(s, t)
	charge(len(s))
	return r
}

func StringsClone(s string) string { r := strings.Clone(s); charge(len(s)); return r }

func StringsTrim(s string, t string) string {
	r := strings.Trim(s, t)
	charge(len(s) - len(r))
	return r
}

func StringsTrimLeft(s string, t string) string {
	r := strings.TrimLeft(s, t)
	charge(len(s) - len(r))
	return r
}

func StringsTrimRight(s string, t string) string {
	r := strings.TrimRight(s, t)
	charge(len(s) - len(r))
	return r
}

func StringsTrimFunc(s string, t func(rune) bool) string {
	r := strings.TrimFunc(s, t)
	charge(len(s) - len(r))
	return r
}

func StringsTrimLeftFunc(s string, t func(rune) bool) string {
	r := strings.TrimLeftFunc(s, t)
	charge(len(s) - len(r))
	return r
}

func StringsTrimRightFunc(s string, t func(rune) bool) string {
	r := strings.TrimRightFunc(s, t)
	charge(len(s) - len(r))
	return r
}

func StringsTrimSpace(s string) string { r := strings.TrimSpace(s); charge(len(s) - len(r)); return r }

func BytesContains(s []byte, t []byte) bool {
	r := bytes.Contains(s, t)
	charge(found(bytes.Index(s, t), len(s)))
	return r
}

func BytesContainsAny(s []byte, t string) bool {
	r := bytes.ContainsAny(s, t)
	charge(found(bytes.IndexAny(s, t), len(s)))
	return r
}

func BytesContainsFunc(s []byte, t func(rune) bool) bool {
	r := bytes.ContainsFunc(s, t)
	charge(len(s))
	return r
}

func BytesContainsRune(s []byte, t rune) bool {
	r := bytes.ContainsRune(s, t)
	charge(found(bytes.IndexRune(s, t), len(s)))
	return r
}

func BytesIndex(s []byte, t []byte) int { r := bytes.Index(s, t); charge(found(r, len(s))); return r }

func BytesLastIndex(s []byte, t []byte) int {
	r := bytes.LastIndex(s, t)
	charge(before(r, len(s)))
	return r
}

func BytesIndexAny(s []byte, t string) int {
	r := bytes.IndexAny(s, t)
	charge(found(r, len(s)))
	return r
}

func BytesLastIndexAny(s []byte, t string) int {
	r := bytes.LastIndexAny(s, t)
	charge(before(r, len(s)))
	return r
}

func BytesIndexFunc(s []byte, t func(rune) bool) int {
	r := bytes.IndexFunc(s, t)
	charge(found(r, len(s)))
	return r
}

func BytesLastIndexFunc(s []byte, t func(rune) bool) int {
	r := bytes.LastIndexFunc(s, t)
	charge(before(r, len(s)))
	return r
}

func BytesIndexRune(s []byte, t rune) int {
	r := bytes.IndexRune(s, t)
	charge(found(r, len(s)))
	return r
}

func BytesIndexByte(s []byte, t byte) int {
	r := bytes.IndexByte(s, t)
	charge(found(r, len(s)))
	return r
}

func BytesLastIndexByte(s []byte, t byte) int {
	r := bytes.LastIndexByte(s, t)
	charge(before(r, len(s)))
	return r
}

func BytesCount(s []byte, t []byte) int { r := bytes.Count(s, t); charge(len(s)); return r }

func BytesCompare(s []byte, t []byte) int {
	r := bytes.Compare(s, t)
	charge(min(len(s), len(t)))
	return r
}

func BytesEqualFold(s []byte, t []byte) bool {
	r := bytes.EqualFold(s, t)
	charge(min(len(s), len(t)))
	return r
}

func BytesCut(s []byte, t []byte) (a []byte, b []byte, ok bool) {
	a, b, ok = bytes.Cut(s, t)
	charge(len(a))
	return
}

func BytesHasPrefix(s []byte, t []byte) bool { r := bytes.HasPrefix(s, t); charge(len(t)); return r }

func BytesHasSuffix(s []byte, t []byte) bool { r := bytes.HasSuffix(s, t); charge(len(t)); return r }

func BytesFields(s []byte) [][]byte { r := bytes.Fields(s); charge(len(s)); return r }

func BytesFieldsFunc(s []byte, f func(rune) bool) [][]byte {
	r := bytes.FieldsFunc(s, f)
	charge(len(s))
	return r
}

func BytesJoin(s [][]byte, t []byte) []byte { r := bytes.Join(s, t); charge(len(r)); return r }

func BytesMap(f func(rune) rune, s []byte) []byte { r := bytes.Map(f, s); charge(len(s)); return r }

func BytesRepeat(s []byte, k int) []byte { r := bytes.Repeat(s, k); charge(len(r)); return r }

func BytesReplace(s []byte, t []byte, u []byte, k int) []byte {
	r := bytes.Replace(s, t, u, k)
	charge(len(s))
	return r
}

func BytesReplaceAll(s []byte, t []byte, u []byte) []byte {
	r := bytes.ReplaceAll(s, t, u)
	charge(len(s))
	return r
}

func BytesSplit(s []byte, t []byte) [][]byte { r := bytes.Split(s, t); charge(len(s)); return r }

func BytesSplitAfter(s []byte, t []byte) [][]byte {
	r := bytes.SplitAfter(s, t)
	charge(len(s))
	return r
}

func BytesSplitN(s []byte, t []byte, k int) [][]byte {
	r := bytes.SplitN(s, t, k)
	n := len(s)
	if k > 0 && len(r) == k {
		n -= len(r[k-1])
	}
	charge(n)
	return r
}

func BytesSplitAfterN(s []byte, t []byte, k int) [][]byte {
	r := bytes.SplitAfterN(s, t, k)
	n := len(s)
	if k > 0 && len(r) == k {
		n -= len(r[k-1])
	}
	charge(n)
	return r
}

func BytesTitle(s []byte) []byte { r := bytes.Title(s); charge(len(s)); return r }

func BytesToLower(s []byte) []byte { r := bytes.ToLower(s); charge(len(s)); return r }

func BytesToUpper(s []byte) []byte { r := bytes.ToUpper(s); charge(len(s)); return r }

func BytesToTitle(s []byte) []byte { r := bytes.ToTitle(s); charge(len(s)); return r }

func BytesToValidUTF8(s []byte, t []byte) []byte {
	r := bytes.ToValidUTF8(s, t)
	charge(len(s))
	return r
}

func BytesClone(s []byte) []byte { r := bytes.Clone(s); charge(len(s)); return r }

func BytesTrim(s []byte, t string) []byte { r := bytes.Trim(s, t); charge(len(s) - len(r)); return r }

func BytesTrimLeft(s []byte, t string) []byte {
	r := bytes.TrimLeft(s, t)
	charge(len(s) - len(r))
	return r
}

func BytesTrimRight(s []byte, t string) []byte {
	r := bytes.TrimRight(s, t)
	charge(len(s) - len(r))
	return r
}

func BytesTrimFunc(s []byte, t func(rune) bool) []byte {
	r := bytes.TrimFunc(s, t)
	charge(len(s) - len(r))
	return r
}

func BytesTrimLeftFunc(s []byte, t func(rune) bool) []byte {
	r := bytes.TrimLeftFunc(s, t)
	charge(len(s) - len(r))
	return r
}

func BytesTrimRightFunc(s []byte, t func(rune) bool) []byte {
	r := bytes.TrimRightFunc(s, t)
	charge(len(s) - len(r))
	return r
}

func BytesTrimSpace(s []byte) []byte { r := bytes.TrimSpace(s); charge(len(s) - len(r)); return r }

func BytesEqual(s []byte, t []byte) bool {
	r := bytes.Equal(s, t)
	charge(min(len(s), len(t)))
	return r
}

func BytesRunes(s []byte) []rune { r := bytes.Runes(s); charge(len(s)); return r }

func Utf8RuneCount(s []byte) int { r := utf8.RuneCount(s); charge(len(s)); return r }

func Utf8RuneCountInString(s string) int { r := utf8.RuneCountInString(s); charge(len(s)); return r }

func Utf8Valid(s []byte) bool { r := utf8.Valid(s); charge(len(s)); return r }

func Utf8ValidString(s string) bool { r := utf8.ValidString(s); charge(len(s)); return r }

func SortSlice(s any, f func(int, int) bool) { sort.Slice(s, f); charge(4 * reflect.ValueOf(s).Len()) }

func SortSliceStable(s any, f func(int, int) bool) {
	sort.SliceStable(s, f)
	charge(4 * reflect.ValueOf(s).Len())
}

func SortSliceIsSorted(s any, f func(int, int) bool) bool {
	r := sort.SliceIsSorted(s, f)
	charge(reflect.ValueOf(s).Len())
	return r
}

func SortStrings(s []string) { sort.Strings(s); charge(4 * len(s)) }

func SortInts(s []int) { sort.Ints(s); charge(4 * len(s)) }

func SortSort(s sort.Interface) { sort.Sort(s); charge(4 * s.Len()) }

func SortStable(s sort.Interface) { sort.Stable(s); charge(4 * s.Len()) }

func SortIsSorted(s sort.Interface) bool { r := sort.IsSorted(s); charge(s.Len()); return r }

func SlicesContains[S ~[]E, E comparable](s S, t E) bool {
	r := slices.Contains(s, t)
	charge(found(slices.Index(s, t), len(s)))
	return r
}

func SlicesContainsFunc[S ~[]E, E any](s S, t func(E) bool) bool {
	r := slices.ContainsFunc(s, t)
	charge(len(s))
	return r
}

func SlicesIndex[S ~[]E, E comparable](s S, t E) int {
	r := slices.Index(s, t)
	charge(found(r, len(s)))
	return r
}

func SlicesIndexFunc[S ~[]E, E any](s S, t func(E) bool) int {
	r := slices.IndexFunc(s, t)
	charge(found(r, len(s)))
	return r
}

func SlicesInsert[S ~[]E, E any](s S, i int, v ...E) S {
	r := slices.Insert(s, i, v...)
	charge(len(r) - i)
	return r
}

func SlicesDelete[S ~[]E, E any](s S, i int, j int) S {
	r := slices.Delete(s, i, j)
	charge(len(s) - i)
	return r
}

func SlicesReverse[S ~[]E, E any](s S) { slices.Reverse(s); charge(len(s)) }

func SlicesClone[S ~[]E, E any](s S) S { r := slices.Clone(s); charge(len(s)); return r }

func SlicesEqual[S ~[]E, E comparable](s S, t S) bool {
	r := slices.Equal(s, t)
	charge(min(len(s), len(t)))
	return r
}

func SlicesSort[S ~[]E, E interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~string
}](s S) {
	slices.Sort(s)
	charge(4 * len(s))
}

func SlicesSortFunc[S ~[]E, E any](s S, f func(E, E) int) { slices.SortFunc(s, f); charge(4 * len(s)) }

func SlicesSortStableFunc[S ~[]E, E any](s S, f func(E, E) int) {
	slices.SortStableFunc(s, f)
	charge(4 * len(s))
}

func SlicesMax[S ~[]E, E interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~string
}](s S) E {
	r := slices.Max(s)
	charge(len(s))
	return r
}

func SlicesMin[S ~[]E, E interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~string
}](s S) E {
	r := slices.Min(s)
	charge(len(s))
	return r
}

// Charged lists the functions that have a charging counterpart.
var Charged = []string{
	"strings.Contains",
	"strings.ContainsAny",
	"strings.ContainsFunc",
	"strings.ContainsRune",
	"strings.Index",
	"strings.LastIndex",
	"strings.IndexAny",
	"strings.LastIndexAny",
	"strings.IndexFunc",
	"strings.LastIndexFunc",
	"strings.IndexRune",
	"strings.IndexByte",
	"strings.LastIndexByte",
	"strings.Count",
	"strings.Compare",
	"strings.EqualFold",
	"strings.Cut",
	"strings.HasPrefix",
	"strings.HasSuffix",
	"strings.Fields",
	"strings.FieldsFunc",
	"strings.Join",
	"strings.Map",
	"strings.Repeat",
	"strings.Replace",
	"strings.ReplaceAll",
	"strings.Split",
	"strings.SplitAfter",
	"strings.SplitN",
	"strings.SplitAfterN",
	"strings.Title",
	"strings.ToLower",
	"strings.ToUpper",
	"strings.ToTitle",
	"strings.ToValidUTF8",
	"strings.Clone",
	"strings.Trim",
	"strings.TrimLeft",
	"strings.TrimRight",
	"strings.TrimFunc",
	"strings.TrimLeftFunc",
	"strings.TrimRightFunc",
	"strings.TrimSpace",
	"bytes.Contains",
	"bytes.ContainsAny",
	"bytes.ContainsFunc",
	"bytes.ContainsRune",
	"bytes.Index",
	"bytes.LastIndex",
	"bytes.IndexAny",
	"bytes.LastIndexAny",
	"bytes.IndexFunc",
	"bytes.LastIndexFunc",
	"bytes.IndexRune",
	"bytes.IndexByte",
	"bytes.LastIndexByte",
	"bytes.Count",
	"bytes.Compare",
	"bytes.EqualFold",
	"bytes.Cut",
	"bytes.HasPrefix",
	"bytes.HasSuffix",
	"bytes.Fields",
	"bytes.FieldsFunc",
	"bytes.Join",
	"bytes.Map",
	"bytes.Repeat",
	"bytes.Replace",
	"bytes.ReplaceAll",
	"bytes.Split",
	"bytes.SplitAfter",
	"bytes.SplitN",
	"bytes.SplitAfterN",
	"bytes.Title",
	"bytes.ToLower",
	"bytes.ToUpper",
	"bytes.ToTitle",
	"bytes.ToValidUTF8",
	"bytes.Clone",
	"bytes.Trim",
	"bytes.TrimLeft",
	"bytes.TrimRight",
	"bytes.TrimFunc",
	"bytes.TrimLeftFunc",
	"bytes.TrimRightFunc",
	"bytes.TrimSpace",
	"bytes.Equal",
	"bytes.Runes",
	"unicode/utf8.RuneCount",
	"unicode/utf8.RuneCountInString",
	"unicode/utf8.Valid",
	"unicode/utf8.ValidString",
	"sort.Slice",
	"sort.SliceStable",
	"sort.SliceIsSorted",
	"sort.Strings",
	"sort.Ints",
	"sort.Sort",
	"sort.Stable",
	"sort.IsSorted",
	"slices.Contains",
	"slices.ContainsFunc",
	"slices.Index",
	"slices.IndexFunc",
	"slices.Insert",
	"slices.Delete",
	"slices.Reverse",
	"slices.Clone",
	"slices.Equal",
	"slices.Sort",
	"slices.SortFunc",
	"slices.SortStableFunc",
	"slices.Max",
	"slices.Min",
}
