"""Which rules decide which property."""
REGISTRY = {
    "C01": ["ops.dry_run_safe"],
    "C02": ["ops.change_report", "scen.tree_report"],
    "C03": ["ops.desired_state", "scen.upload_tree", "scen.file_dest"],
    "C04": ["ops.desired_state_system", "scen.dispatch"],
    "C05": ["ops.type_guard"],
    "C06": ["ops.absolute_paths"],
    "C07": ["ops.argv_hygiene"],
    "C08": ["ops.failing_commands", "scen.tree_failure"],
    "C09": ["ops.line_edit", "scen.line_exact"],
    "C10": ["core.op_framework"],
    "C11": ["entry.templates"],
    "C12": ["core.settings_overlay"],
    "C13": ["core.scope_restore"],
    "C14": ["lifecycle.settings_valid"],
    "C15": ["wire.codec_roundtrip"],
    "C16": ["remote.answered"],
    "C17": ["remote.stream_isolation"],
    "C18": ["wire.broken_stream"],
    "C19": ["remote.fidelity"],
    "C20": ["remote.identity"],
    "C21": ["remote.absence"],
    "C22": ["lifecycle.released"],
    "C23": ["inventory.declarations"],
    "C24": ["inventory.load_order"],
    "C25": ["inventory.ambiguity"],
    "C26": ["inventory.variables"],
    "C27": ["inventory.host_run"],
    "C28": ["entry.connectors"],
    "C29": ["entry.parameters"],
    "C30": ["entry.init_deploy"],
    "C31": ["scen.converged", "scen.notation"],
    "C32": ["output.reports", "output.recorded"],
    "C33": ["output.inspected"],
    "C34": ["entry.generated"],
    "C39": ["cli.command_line"],
    "C40": ["errors.failures"],
}
