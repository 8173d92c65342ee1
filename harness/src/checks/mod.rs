use crate::engine::Check;
mod bytes;
mod compare;
mod errors;
pub mod faults;
mod giants;
mod interleave;
pub mod forms;
pub mod small;
mod values;
pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(values::checks());
    v.extend(bytes::checks());
    v.extend(forms::checks());
    v.extend(faults::checks());
    v.extend(small::checks());
    v.extend(interleave::checks());
    v.extend(giants::checks());
    v.extend(compare::checks());
    v.extend(errors::checks());
    v.sort_by_key(|c| c.id);
    v
}
