// Code generated by shimgen from github.com/fsnotify/fsnotify; DO NOT EDIT.

package fsnotify

import p "github.com/fsnotify/fsnotify"

const Chmod = p.Chmod
const Create = p.Create

var ErrClosed = p.ErrClosed
var ErrEventOverflow = p.ErrEventOverflow
var ErrNonExistentWatch = p.ErrNonExistentWatch

type Event = p.Event
type Op = p.Op

const Remove = p.Remove
const Rename = p.Rename

var WithBufferSize = p.WithBufferSize

const Write = p.Write
