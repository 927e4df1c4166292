// assumed: std::mem::replace and std::mem::take
pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src,
;
pub assume_specification<T: Default> [std::mem::take] (dest: &mut T) -> (r: T)
    ensures r == *old(dest), call_ensures(T::default, (), *final(dest)),
;
// assumed: functions of a text; nothing is said of what they make of it
mod texts {
    use super::*;
    pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn trimmed_start(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn trimmed_end(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn lowered(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn raised(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn ascii_lowered(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn ascii_raised(s: Seq<char>) -> Seq<char>;
    pub assume_specification<'a> [str::trim] (s: &'a str) -> (r: &'a str) ensures r@ == trimmed(s@);
    pub assume_specification<'a> [str::trim_start] (s: &'a str) -> (r: &'a str) ensures r@ == trimmed_start(s@);
    pub assume_specification<'a> [str::trim_end] (s: &'a str) -> (r: &'a str) ensures r@ == trimmed_end(s@);
    pub assume_specification [str::to_lowercase] (s: &str) -> (r: String) ensures r@ == lowered(s@);
    pub assume_specification [str::to_uppercase] (s: &str) -> (r: String) ensures r@ == raised(s@);
    pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (r: String) ensures r@ == ascii_lowered(s@);
    pub assume_specification [str::to_ascii_uppercase] (s: &str) -> (r: String) ensures r@ == ascii_raised(s@);
    pub assume_specification [str::eq_ignore_ascii_case] (s: &str, t: &str) -> (r: bool) ensures r == (ascii_lowered(s@) == ascii_lowered(t@));
}
