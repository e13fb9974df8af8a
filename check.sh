#!/bin/bash
# check.sh <PROPERTY> <quick|thorough> : run one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=${TMPDIR:-/tmp}/verif_mpl
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated OMPI_MCA_hwloc_base_binding_policy=none
mkdir -p "$MPLCONFIGDIR"
if [ "$1" = --setup ]; then
  exec /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "lib"); sys.path.insert(0, "/repo/src"); import vsym.harness, dga.bubble; print("ok")'
fi
exec /opt/venv/bin/python -W ignore run.py "$1" "$2"
