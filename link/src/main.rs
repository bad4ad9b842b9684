//! The entry points the kernel calls, with a stand-in for the kernel's end of the link.
//!
//! The request is put on the link as tokens, the real `codeparser-wll` reads it and answers, and the answer is recorded
//! next to what the library itself returns for the same input.
mod answer;
mod boxes;
mod deliver;
mod read;

fn main() {
    harness::run(|job, what, o| match what {
        'K' => deliver::record(job, o),
        'R' => read::record(job, o),
        _ => true,
    })
}
