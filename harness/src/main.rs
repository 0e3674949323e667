mod accounts;
mod burst;
mod c01;
mod common;
mod filters;
mod fw;
mod contents;
mod dispatch;
mod ondemand;
mod conversion;
mod crowd;
mod tokens;
use fw::*;

fn main() {
    drive(suites)
}
fn suites(prop: &str, ctx: &mut Ctx) -> bool {
    match prop {
        "C01" => {
            c01::suites(ctx);
            burst::suites_accounts(ctx);
        }
        "C02" => {
            accounts::suites_promotion(ctx);
            burst::suites_reports(ctx);
        }
        "C03" => {
            accounts::suites_lists(ctx);
            burst::suites_readers(ctx);
        }
        "C04" => {
            accounts::suites_reads(ctx);
            c01::suites_visible(ctx);
            burst::suites_readers(ctx);
        }
        "C07" => accounts::suites_admission(ctx),
        "C08" => accounts::suites_snapshot(ctx),
        "C09" => tokens::suites_codec(ctx),
        "C10" => {
            tokens::suites_index(ctx);
            burst::suites_index(ctx);
        }
        "C11" => {
            tokens::suites_reads(ctx);
            burst::suites_tokens(ctx);
        }
        "C12" => tokens::suites_lists(ctx),
        "C13" => {
            tokens::suites_contents(ctx);
            burst::suites_tokens(ctx);
        }
        "C14" => tokens::suites_snapshot(ctx),
        "C17" => contents::suites(ctx),
        "C18" => conversion::suites(ctx),
        "C15" => {
            dispatch::suites(ctx);
            burst::suites_accounts(ctx);
        }
        "C19" => crowd::suites(ctx),
        "C16" => ondemand::suites(ctx),
        "C05" => filters::suites_match(ctx),
        "C06" => {
            filters::suites_store(ctx);
            burst::suites_filters(ctx);
        }
        _ => return false,
    }
    true
}
