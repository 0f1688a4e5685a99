//! A plugin written with the SDK, as the server side of c15.rs.
use hodu_plugin_sdk::rpc::*;
use hodu_plugin_sdk::server::PluginServer;
use serde_json::{json, Value};

fn main() {
    let r = PluginServer::new("srv", "1.2.3")
        .devices(vec!["cpu"])
        .model_extensions(vec!["m"])
        .method("format.load_model", |p: LoadModelParams| Ok(LoadModelResult { snapshot_path: format!("<{}>", p.path) }))
        .method("backend.run", |p: Value| -> Result<Value, RpcError> {
            Err(RpcError::with_data(-32005, p.to_string(), json!([1, "é"])))
        })
        .method("backend.build", |_: Value| Ok(()))
        .method_no_params("backend.supported_targets", || Ok(json!({"targets": ["t"], "formatted": "a\nb"})))
        .method("x.notify", |p: Value| {
            hodu_plugin_sdk::notify_progress(Some(50), "half");
            hodu_plugin_sdk::notify_log("info", "line\nline");
            Ok(p)
        })
        .run();
    if let Err(e) = r {
        eprintln!("{e}");
        std::process::exit(5);
    }
}
