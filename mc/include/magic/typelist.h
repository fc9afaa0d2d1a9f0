/* Passes the real type list through a filter so that a check only instantiates
 * the element types its scenarios use (order kept). Without MC_TYPES the list
 * is unchanged. */
#ifndef MC_MAGIC_TYPELIST_H
#define MC_MAGIC_TYPELIST_H
#include_next <magic/typelist.h>
#ifdef MC_TYPES
namespace types { template<typename T> class ArrayType; template<typename T> class StructType; template<typename T> class BasicType; }
namespace magic {
template<class T, class... K> struct McKeep { enum { v = 0 }; };
template<class T, class H, class... K> struct McKeep<T, H, K...> { enum { v = McKeep<T, K...>::v }; };
template<class T, class... K> struct McKeep<T, T, K...> { enum { v = 1 }; };
template<class L> struct McFilter { typedef L result; };
template<bool k, class H, class T> struct McSel { typedef Typelist<H, typename McFilter<T>::result> result; };
template<class H, class T> struct McSel<false, H, T> { typedef typename McFilter<T>::result result; };
template<class H, class T> struct McFilter<Typelist<H, T> > { typedef typename McSel<McKeep<H, MC_TYPES>::v, H, T>::result result; };
template<typename... T> struct McMake { typedef typename McFilter<typename MakeTypelist<T...>::result>::result result; };
}
#define MakeTypelist McMake
#endif
#endif
