// Code generated by shimgen from path/filepath; DO NOT EDIT.

package filepath

import p "path/filepath"

var Abs = p.Abs
var Base = p.Base
var Clean = p.Clean
var Dir = p.Dir
var ErrBadPattern = p.ErrBadPattern
var Ext = p.Ext
var FromSlash = p.FromSlash
var HasPrefix = p.HasPrefix
var IsAbs = p.IsAbs
var IsLocal = p.IsLocal
var Join = p.Join

const ListSeparator = p.ListSeparator

var Localize = p.Localize
var Match = p.Match
var Rel = p.Rel

const Separator = p.Separator

var SkipAll = p.SkipAll
var SkipDir = p.SkipDir
var Split = p.Split
var SplitList = p.SplitList
var ToSlash = p.ToSlash
var VolumeName = p.VolumeName

type WalkFunc = p.WalkFunc
