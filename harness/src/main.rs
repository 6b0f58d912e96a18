mod common;
mod calendars;
mod conventions;
mod contexts;
mod fx;
mod chf;
mod documents;
mod fits;
mod fmm;
mod localvol;
mod mc;
mod models;
mod numerics;
mod observers;
mod paths;
mod pattern;
mod rates;
mod time;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(String::as_str).unwrap_or("");
    let out = args.get(2).cloned().unwrap_or_else(|| "/dev/stdout".into());
    let rest: Vec<String> = args.iter().skip(3).cloned().collect();
    common::quiet_panics();
    match cmd {
        "calendars" => calendars::record(&out, &rest),
        "adjust" => time::adjust(&out, &rest),
        "advance" => time::advance(&out, &rest),
        "between" => time::between(&out, &rest),
        "joint" => conventions::joint(&out, &rest),
        "daycount" => conventions::daycount(&out, &rest),
        "periods" => conventions::periods(&out, &rest),
        "imm" => conventions::imm(&out, &rest),
        "fxdates" => conventions::fxdates(&out, &rest),
        "points" => fx::points(&out, &rest),
        "values" => fx::values(&out, &rest),
        "smile" => fx::smile(&out, &rest),
        "curve" => rates::curve(&out, &rest),
        "schedules" => rates::schedules(&out, &rest),
        "bootstrap" => rates::bootstrap(&out, &rest),
        "swaps" => rates::swaps(&out, &rest),
        "caps" => rates::caps(&out, &rest),
        "capstrip" => rates::capstrip(&out, &rest),
        "observers" => observers::record(&out, &rest),
        "contexts" => contexts::record(&out, &rest),
        "indices" => rates::indices(&out, &rest),
        "formulas" => models::formulas(&out, &rest),
        "moments" => models::moments(&out, &rest),
        "sabr" => models::sabr(&out, &rest),
        "dynamics" => mc::dynamics(&out, &rest),
        "fmmforms" => fmm::forms(&out, &rest),
        "fmmmoves" => fmm::moves(&out, &rest),
        "chf" => chf::record(&out, &rest),
        "documents" => documents::record(&out, &rest),
        "fits" => fits::fits(&out, &rest),
        "fitsurf" => fits::surfaces(&out, &rest),
        "hybrids" => fmm::hybrids(&out, &rest),
        "localvol" => localvol::record(&out, &rest),
        "runner" => paths::runner(&out, &rest),
        "nelder" => numerics::nelder(&out, &rest),
        _ => {
            eprintln!("unknown command {cmd}");
            std::process::exit(2);
        }
    }
}
