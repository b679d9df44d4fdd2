"""Circuit gadgets force their output: with every added wire free, the recorded constraints imply the native function."""
import gadgets

LEVEL = "other"
FLOOR = 30


def run(ctx):
    gadgets.run_mode(ctx, "force")
