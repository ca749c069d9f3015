export * from './type-only-exports';

export type * as typeOnlyExports from './type-only-exports';

export type * from './index';

export type * as indexExports from './index';

export { Type1 as AliasedType1 } from './index';

import { Class1 } from './index';

export { type Class1 as AliasedClass1 };
