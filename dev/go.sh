cd /tmp/w; python3 /verif/dev/gen.py $1 $2 P.json && python3 /verif/dev/canon_abs.py P.json A.json && (cd /tmp/w; /opt/venv/bin/python /verif/dev/canon_real.py P.json R.json) && python3 /verif/dev/diff.py P.json A.json R.json ${3:-6}
