// assumed: std::collections::VecDeque::is_empty
pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::is_empty] (d: &std::collections::VecDeque<T, A>) -> (r: bool)
    ensures r == (d@.len() == 0);
