package univ

import "github.com/arr-ai/frozen"

type gsetB[T any] struct {
	u *gsetU[T]
	b *frozen.SetBuilder[T]
}

func (b *gsetB[T]) Add(r Ref)      { b.b.Add(b.u.u.At(r)) }
func (b *gsetB[T]) Remove(r Ref)   { b.b.Remove(b.u.u.At(r)) }
func (b *gsetB[T]) Has(r Ref) bool { return b.b.Has(b.u.u.At(r)) }
func (b *gsetB[T]) Count() int     { return b.b.Count() }
func (b *gsetB[T]) Finish() Set    { return gset[T]{b.u, b.b.Finish()} }
func (b *gsetB[T]) String() string { return b.b.String() }

type gmapB[K, V any] struct {
	u *gmapU[K, V]
	b *frozen.MapBuilder[K, V]
}

func (b *gmapB[K, V]) Put(k, v Ref)   { b.b.Put(b.u.k.u.At(k), b.u.v.u.At(v)) }
func (b *gmapB[K, V]) Remove(k Ref)   { b.b.Remove(b.u.k.u.At(k)) }
func (b *gmapB[K, V]) Has(k Ref) bool { return b.b.Has(b.u.k.u.At(k)) }
func (b *gmapB[K, V]) Count() int     { return b.b.Count() }
func (b *gmapB[K, V]) Finish() Map    { return gmap[K, V]{b.u, b.b.Finish()} }
func (b *gmapB[K, V]) Get(k Ref) (int, bool) {
	v, ok := b.b.Get(b.u.k.u.At(k))
	if !ok {
		return -1, false
	}
	return b.u.v.u.Idx(v), true
}
