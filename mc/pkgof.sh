# prints the package of the checker for a property, and whether it is built with
# the overlay of cmd/instr
case $1 in
C23|C24) echo ./cmd/mc instr ;;
*) echo ./cmd/mc ;;
esac
