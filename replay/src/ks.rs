//! The command line program without the lock, with directory moves instead of symlinks if KS_MOVES is set,
//! or only printing what it would work with if KS_CFG is set.
use structopt::StructOpt;
fn main() {
    let mut c = krill_sync::config::Config::from_args();
    c.rsync_dir_force_moves = std::env::var("KS_MOVES").is_ok();
    let r = krill_sync::config::post_configure(c);
    if std::env::var("KS_CFG").is_ok() {
        match r {
            Err(e) => { eprintln!("{e:?}"); std::process::exit(1) }
            Ok(c) => {
                let ns = krill_sync::rrdp::RrdpState::create(&c).ok().map(|s| serde_json::to_value(s).unwrap());
                println!("{}", serde_json::json!({"state": c.state_dir, "rrdp": c.rrdp_dir, "rsync": c.rsync_dir, "lock": c.lock_file(), "rrdp_state": c.rrdp_state_path(),
                    "rsync_state": c.rsync_state_path(), "staging": c.staging_dir(), "staged": c.staging_path("a/b.xml"), "current": c.rsync_dir_current(), "st": ns}));
                return;
            }
        }
    }
    let r = r.and_then(|c| krill_sync::process::process(&c));
    if let Err(e) = r { eprintln!("{e:?}"); std::process::exit(1) }
}
