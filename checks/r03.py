"""Circuit gadgets assign the native function of their inputs and satisfy the constraints they record, for every input."""
import gadgets

LEVEL = "other"
FLOOR = 40


def run(ctx):
    gadgets.run_mode(ctx, "assign")
