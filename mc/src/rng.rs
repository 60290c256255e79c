//! Stands in for the explorer's control of the random numbers (mcx): one outcome only
pub fn data_begin(_prefix: Vec<usize>, _max: usize) {}
pub fn data_end() -> Vec<(usize, usize)> { vec![] }
pub fn reset_turn() {}
