#!/bin/bash
# tools/newdemo.sh ID: standard demo.sh
cat > /verif/seeded/$1/demo.sh <<'H'
#!/bin/bash
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
H
