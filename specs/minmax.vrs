pub assume_specification<T: Ord + std::marker::Destruct> [ std::cmp::min ] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == Ordering::Greater { b } else { a });
pub assume_specification<T: Ord + std::marker::Destruct> [ std::cmp::max ] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == Ordering::Greater { a } else { b });
