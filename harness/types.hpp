// The verified instantiations.
#ifdef T_int
VALUE(i32, int)
#endif
#ifdef T_val
VALUE(val, Val)
#endif
#ifdef T_big
VALUE(big, Big)
#endif
#ifdef T_mov
VALUE_BASE(mov, Mov)
#endif
#ifdef T_cpy
VALUE(cpy, Cpy)
#endif
#ifdef T_ali
VALUE(ali, Ali)
#endif
#ifdef T_tri
VALUE(tri, Tri)
#endif
#ifdef T_wid
VALUE(wid, Wid)
#endif
#ifdef T_emp
VALUE(emp, Emp)
#endif
#ifdef T_ptr
typedef int * iptr;
VALUE(ptr, iptr)
#endif
#ifdef T_boo
VALUE(boo, bool)
#endif
#ifdef T_dbl
VALUE(dbl, double)
#endif
#ifdef T_enu
VALUE(enu, Enu)
#endif
#ifdef T_lon
VALUE(lon, unsigned long)
#endif
#ifdef T_chr
VALUE(chr, char)
#endif
#ifdef T_hug
VALUE(hug, Hug)
#endif
#ifdef T_al1
VALUE(al1, Al1)
#endif
#ifdef T_al6
VALUE(al6, Al6)
#endif
#ifdef T_p12
VALUE(p12, P12)
#endif
#ifdef T_odd
VALUE(odd, Odd)
#endif
#ifdef T_tdt
VALUE(tdt, Tdt)
#endif
#ifdef T_ncp
VALUE(ncp, Ncp)
#endif
#ifdef T_dref
REFERENCE(dref, double const)
#endif
#ifdef T_tref
REFERENCE(tref, P12 const)
#endif
#ifdef T_kref
REFERENCE(kref, int const)
#endif
#ifdef T_iref
REFERENCE(iref, int)
#endif
#ifdef T_vref
REFERENCE(vref, Val)
#endif
#ifdef T_cref
REFERENCE(cref, Val const)
#endif
#ifdef T_void
PULLBASE(void, void)
#endif
