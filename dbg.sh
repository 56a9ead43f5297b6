cd /verif/polymir && cargo build --release --offline 2>&1 | grep -E "^error" -A9 | head -60
rm -f /tmp/$1.json
TAIL=400 /verif/run.sh $1 /tmp/$1.json "$3" | grep -E "^error|panicked" -A25 | head -60
python3 /verif/show.py /tmp/$1.json $2 | cut -c1-${W:-600}
