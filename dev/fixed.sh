# usage: dev/fixed.sh GREP PROP TEXT  - record a fix commit
c=$(git -C /repo log --format=%h --grep="$1" -1)
echo "fixed: property=$2 $c $3" >> /verif/known_findings.txt
