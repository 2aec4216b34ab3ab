"""Properties, the functions they rest on, and what is assumed."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = 'fetch::FetchSource::fetch'; FR = 'fetch::Fetcher::retrieve_file'; FN = 'fetch::Fetcher::read_notification_file'; RS = 'fetch::Fetcher::resolve_source'
US = 'rrdp::RrdpState::update_staged'; WN = 'rrdp::RrdpState::write_notification'; MV = 'file_ops::move_file'; AP = 'rrdp::RrdpState::apply_staged_changed'; CL = 'rrdp::RrdpState::clean'; RM = 'file_ops::remove_file_and_empty_parent_dirs'; WA = 'file_ops::write_buf_atomic'
PR = 'process::process'; PV = 'rrdp::RrdpState::pre_validate'; PE = 'rrdp::RrdpState::persist'; RC = 'rrdp::RrdpState::recover'; CR = 'rrdp::RrdpState::create'; TP = 'validation::tal::Tal::parse'; TV = 'validation::tal::Tal::validate_at'
RY = 'rsync::update_from_rrdp_state'; PB = '<rsync::RsyncFromSnapshotWriter as rpki::rrdp::ProcessSnapshot>::publish'; FP = 'rsync::RsyncFromSnapshotWriter::for_snapshot_path'; FX = 'rsync::fix_since'; UC = 'rsync::RsyncDirState::update_current'; CO = 'rsync::RsyncDirState::clean_old'
TRUSTED = ['rustc (MIR construction, nightly front end)', '/verif/mirdump (MIR to JSON)', '/verif/mirv (symbolic execution, models of std, rpki, serde, reqwest, filetime)', 'z3']
ASSUME = ['a URI never names two different contents', 'state, RRDP and rsync directories are disjoint', 'the same configuration is used for all runs on a state directory', 'nobody else changes these directories',
    'SHA-256 collisions do not occur', 'a notification that lists deltas lists one for its own serial', 'log output and error texts are not modelled', 'unwinding paths are not followed (a panic is an obligation of its own)']
PC = 'config::post_configure'; CFR = 'config::Config::fetcher'; FSS = '<fetch::FetchSource as std::str::FromStr>::from_str'; GET = ['config::Config::' + n for n in ('rrdp_state_path', 'rsync_state_path', 'lock_file', 'staging_dir', 'staging_path')]; NB = 'rrdp::NotificationSource::build'; MB = 'rrdp::SourceMappings::build'
PROPS = {}
NA = {}
COST = {}
def P(i, level, roots, note, gap=''): PROPS[i] = dict(level=level, roots=roots, note=note, gap=gap)
P('C01', 'proof', [PR, US, FN, F, RC, CR], 'whether a run publishes is decided by update_staged and read_notification_file; process ties it to the persisted state')
P('C02', 'proof', [F, FR, MV, US, AP, PR], 'fetch and retrieve_file return only content with the listed hash, staged files and published files are tied to their recorded hash by the contract of update_staged')
P('C03', 'proof', [MV, WN, US, AP, CL, RY, PR], 'every change of the public notification or of a file it lists is an obligation at the call that makes it')
P('C04', 'proof', [US, AP, WN, PR], 'the staged delta list is decided by update_staged, the published one by apply_staged_changed')
P('C05', 'proof', [CL, AP, RM, PR], 'what a run drops is scheduled by apply_staged_changed and removed by clean')
P('C06', 'proof', [US, FR, F, MV, WN, AP, CL, RY, PB, CO, PR], 'every call that writes, renames or removes carries the obligation that its path lies where it may')
P('C07', 'proof', [PR, US, FN, FR], 'fetching and validating change the staging area only; the steps of a run are put together in process')
P('C08', 'proof', [PR, PV], 'process runs pre_validate and every script before it applies anything; pre_validate fails or not as the report says')
P('C09', 'proof', [RY, FP, PB, UC, PR], 'publish writes each object where its URI says, for_snapshot_path all objects of the snapshot, update_from_rrdp_state switches `current` once that is done')
P('C10', 'proof', [RY, CO, UC, PR], 'the record of replaced trees: update_current puts them on it, clean_old removes what is due and keeps the rest on record')
P('C11', 'proof', ['try_main', PR], 'try_main calls process only while the lock is held, and does nothing else without it; mutual exclusion itself is the file lock of the operating system (fslock)')
P('C12', 'proof', [PR, RY, PE, RC, CR, WN, AP, WA], 'what is saved is what is published (precondition of persist), loading gives it back (postcondition of recover), each file is replaced by one rename')
P('C13', 'proof', [F, FR, FN, RS, PC, CFR, FSS], 'every request goes where the mapping says (fetch, resolve_source), with the checks the mode says; post_configure and Config::fetcher make the mapping and the mode what the options say')
P('C14', 'proof', [TP, TV, F], 'Tal::validate_at returns a certificate only if it is valid as a trust anchor and has the key of the TAL')
P('C18', 'proof', [FX, PB, FP, RY], 'fix_since sets the time an object determines, publish calls it for every object, for_snapshot_path and update_from_rrdp_state keep it')
P('C19', 'proof', [PC, NB, MB, CR] + GET, 'post_configure decides the directories; the path functions of Config and NotificationSource::build the names')
P('C20', 'proof', [US, FN, FR, F, MV, WN, AP, CL, PR, PV, TP, TV, RY, PB, FP, FX, UC, CO], 'every panic, overflow and index is an obligation')
def known(prop):
    f = V + '/known-findings.txt'
    if not os.path.exists(f): return []
    return [l.split(' ', 2)[2].strip() for l in open(f) if l.startswith(f'finding: property={prop} ')]
