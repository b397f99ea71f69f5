"""setup_cmd: builds the fact dumper."""
import facts
facts.ensure_tool()
