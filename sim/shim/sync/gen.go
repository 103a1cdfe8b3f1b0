// Code generated by shimgen from sync; DO NOT EDIT.

package sync

import p "sync"

type Locker = p.Locker

// generic: OnceValue
// generic: OnceValues
