/* Force-included in front of instrumented translation units of the simulated engine.
 * A weak compare-exchange is allowed by C11 to fail although the values are equal: let the engine decide. */
#ifndef __cplusplus
#include <stdatomic.h>
extern int sim_spurious(void);
#undef atomic_compare_exchange_weak
#undef atomic_compare_exchange_weak_explicit
#define atomic_compare_exchange_weak_explicit(o,e,d,s,f) \
  __extension__ ({ __auto_type _sim_o=(o); __auto_type _sim_e=(e); \
     (sim_spurious() && atomic_load_explicit(_sim_o,memory_order_relaxed)==*_sim_e) ? (_Bool)0 : \
     (_Bool)__c11_atomic_compare_exchange_strong(_sim_o,_sim_e,(d),(s),(f)); })
#define atomic_compare_exchange_weak(o,e,d) \
  atomic_compare_exchange_weak_explicit(o,e,d,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST)
#endif
