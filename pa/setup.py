"""setup_cmd: compiles the exporter (checks rebuild it when it is missing)."""
from . import build
if __name__ == "__main__":
    build.driver()
    print("ok")
