mod harness; mod oracle; mod common; mod samples; mod special;
fn main() {
    common::ALL.set(|| { let mut v = common::basic_ops(); v.extend(samples::sample_ops()); v }).ok();
    harness::main(special::check, special::explore)
}
