from . import cli, general, growth, inline, messages, sections, state

REGISTRY = {
    check.id: check
    for module in (general, inline, sections, cli, state, growth, messages)
    for check in module.CHECKS
}
