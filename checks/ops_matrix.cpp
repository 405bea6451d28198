#include "shape.hpp"
namespace conc {
template <class T> void reg_matrix(Table<T>& t) {
    shape<T, 2, 2>(t); shape<T, 3, 3>(t); shape<T, 4, 4>(t); 
}
template <class T> void reg_matrix2(Table<T>& t) {
    shape<T, 3, 4>(t); shape<T, 4, 3>(t); shape<T, 7, 3>(t);
}
#ifdef TYPE
#ifdef TALL
template void reg_matrix2<TYPE>(Table<TYPE>&);
#else
template void reg_matrix<TYPE>(Table<TYPE>&);
#endif
#endif
}
