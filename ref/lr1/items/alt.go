package items

import "github.com/goccmack/gogll/v3/ast"

// NewItem_alt1: the last item's NextItem is nil either way.
func NewItem_alt1(head string, alt *ast.SyntaxAlternate, index int) []*Item {
	items := make([]*Item, 0, 8)
	item0 := &Item{
		BasicProdIdx: index,
		Id:           head,
		Symbols:      alt.GetSymbols(),
		Position:     0,
		hashKey:      itemHashKey(index, 0),
	}
	item0.str = makeItemString(item0.Id, item0.Symbols, item0.Position)

	for item := item0; item != nil; item = item.NextItem {
		item.NextItem = item.nextItem()
		items = append(items, item)
	}
	return items
}

// NewItem_alt2 appends every item when it is reached.
func NewItem_alt2(head string, alt *ast.SyntaxAlternate, index int) []*Item {
	items := make([]*Item, 0, 8)
	item := &Item{
		BasicProdIdx: index,
		Id:           head,
		Symbols:      alt.GetSymbols(),
		Position:     0,
		hashKey:      itemHashKey(index, 0),
	}
	item.str = makeItemString(item.Id, item.Symbols, item.Position)

	for item != nil {
		items = append(items, item)
		item.NextItem = item.nextItem()
		item = item.NextItem
	}
	return items
}
