"""setup_cmd: checks that the tools the checks use are there (nothing prebuilt is kept: every check
builds the extractor, the expansion and the replay driver from the committed files and /repo)."""
import shutil, sys
missing = [t for t in ("cargo", "rustc", "verus") if not shutil.which(t)]
if missing:
    print("missing tools:", missing); sys.exit(1)
print("tools present")
