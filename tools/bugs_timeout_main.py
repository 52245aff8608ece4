MAIN = r'''mod common;
use std::time::Duration;
// the parent runs itself as a child whose action ends during the exit action
fn main() {
    if std::env::args().nth(1).is_some() {
        engineering::xputils::timeout(
            Duration::from_millis(100),
            || std::thread::sleep(Duration::from_millis(600)),
            || {
                std::thread::sleep(Duration::from_millis(1500));
                println!("complete");
            },
        );
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").output().unwrap();
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    if o.status.code() == Some(0) {
        common::fail(&format!("exit status 0 although the exit action started; output {:?}", out));
    }
    if out.matches("complete").count() != 1 {
        common::fail(&format!("status {:?} output {:?}", o.status, out));
    }
    println!("ok");
}
'''
